//! C06: appending nullable items keeps values and validity aligned.

use narrow::{
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{Buffer, VecBuffer},
    collection::{Collection, CollectionAllocIn, CollectionRealloc},
    length::Length,
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

/// Items with the presence given by the low bits of `mask` and values `vals[i]`.
struct Items<const M: usize> {
    vals: [u32; M],
    mask: u32,
    i: usize,
}
impl<const M: usize> Iterator for Items<M> {
    type Item = Option<u32>;
    fn next(&mut self) -> Option<Option<u32>> {
        if self.i < M {
            self.i += 1;
            if (self.mask >> (self.i - 1)) & 1 == 1 { Some(Some(self.vals[self.i - 1])) } else { Some(None) }
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (M - self.i, Some(M - self.i))
    }
}

/// `n` arbitrary values, validity bits `bits` at `offset` when stored, then
/// `M` items appended.
fn append<const N: usize, const M: usize>(stored: Option<(usize, usize)>, mask: u32, fallible: bool) {
    let vals: [u32; N] = any();
    let more: [u32; M] = any();
    let bytes: [u8; 3] = any();
    let child = Av::from_fn(N, |i| vals[i]);
    let mut v = match stored {
        Some((offset, nbytes)) => {
            let b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(nbytes, |i| bytes[i]), N, offset).ok().expect("OB: fits");
            Validity::<Av<u32>, AvBuf>::try_from_parts(child, b).ok().expect("OB: lengths match")
        }
        None => Validity::<Av<u32>, AvBuf>::from_collection(child),
    };
    let src = Items { vals: more, mask, i: 0 };
    if fallible {
        check!(v.try_extend(src).is_ok(), "an append with room succeeds");
    } else {
        v.extend(src);
    }
    check!(v.len() == N + M, "length grows by the number of items");
    let mut i = 0;
    while i < N {
        let valid = match stored {
            Some((offset, _)) => spec::bit(&bytes, offset + i),
            None => true,
        };
        check!(v.view(i) == Some(valid.then_some(vals[i])), "every earlier position is unchanged");
        i += 1;
    }
    let mut k = 0;
    while k < M {
        check!(v.view(N + k) == Some(((mask >> k) & 1 == 1).then_some(more[k])), "new position k reads item k");
        k += 1;
    }
    check!(v.view(N + M).is_none(), "nothing beyond the end");
}

fn reserve_absent<const N: usize>(fallible: bool) {
    let vals: [u32; N] = any();
    let mut v = Validity::<Av<u32>, AvBuf>::from_collection(Av::from_fn(N, |i| vals[i]));
    let additional = nd::below(9);
    if fallible {
        grants::set(nd::below(4));
        let _ = v.try_reserve(additional);
        grants::set(usize::MAX);
    } else {
        v.reserve(additional);
    }
    check!(v.len() == N, "reserving keeps the length");
    let mut i = 0;
    while i < N {
        check!(v.view(i) == Some(Some(vals[i])), "reserving keeps every position valid and unchanged");
        i += 1;
    }
    check!(v.view(N).is_none() && v.null_count() == 0, "reserving adds no position and no null");
}

obligations! { "C06";
    proof c06_reserve_any [2] "Validity::reserve/try_reserve over any values, any bitmap (bits, offset, buffer up to 2^40 bytes), failing or not, any position" {
        let bytes = Sym::<u8>::any(40, 0);
        let (bits, offset, i, additional): (usize, usize, usize, usize) = (any(), any(), any(), any());
        let mut bytes = bytes;
        bytes.ok.set(any());
        if let Ok(b) = Bitmap::<SymBuf>::try_from_parts(bytes, bits, offset) {
            let child = Watched { len: bits, watch: any(), val: any(), ok: any(), reserved: 0, eager: false };
            let mut v = Validity::<Watched, SymBuf>::try_from_parts(child, b).ok().expect("OB: lengths match");
            let watch = child.watch;
            let old = v.view(watch);
            let valid = v.is_valid(i);
            if any() {
                v.reserve(additional);
            } else {
                let _ = v.try_reserve(additional);
            }
            check!(v.len() == bits, "reserving keeps the length");
            check!(v.view(watch) == old, "reserving keeps every position");
            check!(v.is_valid(i) == valid, "reserving keeps every validity");
        }
    }
    bounded c06_append_stored [12] "3 stored positions at offset 0, any validity and values; append present, null, present, null" { append::<3, 4>(Some((0, 1)), 0b0101, false) }
    bounded c06_append_offset [12] "3 stored positions at offset 6 with stale bits, append null, present, null" { append::<3, 3>(Some((6, 2)), 0b010, false) }
    bounded c06_append_spare [12] "2 stored positions at offset 5 with a spare byte, append null, present" { append::<2, 2>(Some((5, 2)), 0b10, false) }
    bounded c06_append_absent [12] "3 positions without bitmap, append present, null" { append::<3, 2>(None, 0b01, false) }
    bounded c06_append_absent8 [12] "8 positions without bitmap, append null" { append::<8, 1>(None, 0b0, false) }
    bounded c06_append_absent0 [12] "no position, no bitmap, append null, present" { append::<0, 2>(None, 0b10, false) }
    bounded c06_try_stored [12] "fallible: 3 stored positions at offset 6, append null, present" { append::<3, 2>(Some((6, 2)), 0b10, true) }
    bounded c06_try_absent [12] "fallible: 3 positions without bitmap, append present, null" { append::<3, 2>(None, 0b01, true) }
    bounded c06_reserve_absent3 [12] "reserve with 3 values and no bitmap" { reserve_absent::<3>(false) }
    bounded c06_reserve_absent8 [12] "reserve with 8 values and no bitmap" { reserve_absent::<8>(false) }
    bounded c06_try_reserve_absent9 [12] "fallible reserve with 9 values and no bitmap, failing at any growth" { reserve_absent::<9>(true) }
}

#[cfg(not(kani))]
fn history<C, S>(mut v: Validity<C, S>, mut model: Vec<Option<u32>>, max: usize)
where
    C: CollectionRealloc<Owned = u32>,
    S: Buffer<For<u8>: core::borrow::BorrowMut<[u8]> + CollectionRealloc<Alloc = C::Alloc>>,
{
    for _ in 0..nd::below(5) + 1 {
        let bias = nd::below(3);
        let seed: u32 = any();
        let items: Vec<Option<u32>> = (0..nd::below(max) as u32)
            .map(|i| {
                let r = seed.wrapping_mul(i.wrapping_mul(2654435761) | 1) >> 7;
                match bias { 0 => Some(r), 1 => None, _ => (r & 1 == 0).then_some(r) }
            })
            .collect();
        let src = || Hinted { v: items.clone().into_iter(), lie: (seed % 3) as usize };
        match nd::below(6) {
            0 | 1 => {
                v.extend(src());
                model.extend(items.iter());
            }
            2 => {
                check!(v.try_extend(src()).is_ok(), "an append with room succeeds");
                model.extend(items.iter());
            }
            3 => v.reserve(nd::below(50)),
            4 => {
                grants::set(nd::below(3));
                let _ = v.try_reserve(if any() { nd::below(50) } else { any::<usize>() });
                grants::set(usize::MAX);
            }
            _ => {
                grants::set(nd::below(4));
                let r = v.try_extend(src());
                grants::set(usize::MAX);
                if r.is_ok() {
                    model.extend(items.iter());
                }
            }
        }
        check!(v.len() == model.len(), "length");
        check!(v.null_count() == model.iter().filter(|x| x.is_none()).count(), "null count");
        for (i, x) in model.iter().enumerate() {
            check!(v.owned(i) == Some(*x), "position i reads the item appended there");
        }
        check!(v.view(model.len()).is_none(), "nothing beyond the end");
        check!(v.iter_views().map(|x| x.map(narrow::collection::owned::IntoOwned::into_owned)).eq(model.iter().copied()), "iteration agrees");
    }
    check!(v.into_iter_owned().eq(model.iter().copied()), "consuming iteration agrees");
}

#[cfg(not(kani))]
fn start<S: Buffer>(make: impl Fn(&[u8]) -> S::For<u8>) -> (Option<Bitmap<S>>, Vec<Option<u32>>) {
    let nbytes = nd::below(6);
    let bytes: Vec<u8> = (0..nbytes).map(|_| any()).collect();
    let offset = nd::below(nbytes * 8 + 1);
    let bits = nd::below(nbytes * 8 - offset + 1);
    if any() {
        let n = nd::below(40);
        (None, (0..n).map(|_| Some(any())).collect())
    } else {
        let b = Bitmap::<S>::try_from_parts(make(&bytes), bits, offset).ok().expect("OB: fits");
        let m = (0..bits).map(|i| spec::bit(&bytes, offset + i).then(any)).collect();
        (Some(b), m)
    }
}

#[cfg(not(kani))]
fn run(max: usize) {
    let (b, m) = start::<VecBuffer>(|x| x.to_vec());
    let vals: Vec<u32> = m.iter().map(|x| x.unwrap_or(77)).collect();
    history(match b { Some(b) => Validity::<Vec<u32>>::try_from_parts(vals, b).ok().expect("OB: match"), None => Validity::from_collection(vals) }, m, max);
    let (b, m) = start::<AvBuf>(|x| Av::from_fn(x.len(), |i| x[i]));
    let vals = Av::from_fn(m.len(), |i| m[i].unwrap_or(77));
    history(match b { Some(b) => Validity::<Av<u32>, AvBuf>::try_from_parts(vals, b).ok().expect("OB: match"), None => Validity::from_collection(vals) }, m, max);
}

runs! { "C06";
    c06_run_short "histories of appends, failing appends and reservations, up to 40 items each" { run(40) }
    c06_run_long "appends of up to 3300 items at once (several internal batches)" { run(3300) }
    c06_run_batch "appends of 1020..1030 and 2044..2052 items at once" {
        let n = if any() { 1020 + nd::below(11) } else { 2044 + nd::below(9) };
        let pre = nd::below(12);
        let seed: u64 = any();
        let bit = |i: usize| (seed >> (i % 61)) & 1 == 1;
        let items: Vec<Option<u32>> = (0..n).map(|i| bit(i).then_some(i as u32)).collect();
        let mut v = if any() { Validity::<Vec<u32>>::from_collection((0..pre as u32).collect()) } else { (0..pre as u32).map(Some).collect() };
        let mut model: Vec<Option<u32>> = (0..pre as u32).map(Some).collect();
        for _ in 0..2 {
            if any() { v.extend(items.iter().copied()) } else { check!(v.try_extend(items.iter().copied()).is_ok(), "append succeeds") }
            model.extend(items.iter());
        }
        check!(v.len() == model.len(), "length");
        check!(v.iter_views().eq(model.iter().copied()), "iteration agrees");
        for i in (0..model.len()).step_by(7) { check!(v.view(i) == Some(model[i]), "position i reads the item appended there"); }
        check!(v.into_iter_owned().eq(model.iter().copied()), "consuming iteration agrees");
    }
}
