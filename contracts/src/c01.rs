//! C01: packed booleans read back the same bits however they are read.

use narrow::{
    bitmap::Bitmap,
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, Buffer, RcBuffer, SliceBuffer, VecBuffer},
    collection::Collection,
    length::Length,
};

use crate::{nd, nd::any, spec, store::*};

/// Postcondition of an indexed read, for every index.
fn view_post<S: Buffer>(b: &Bitmap<S>, bytes: &[u8], bits: usize, offset: usize, index: usize) {
    let v = b.view(index);
    let o = b.owned(index);
    if index < bits {
        let want = spec::bit(bytes, offset + index);
        check!(v == Some(want), "view(i) is bit offset+i of the buffer");
        check!(o == Some(want), "owned(i) is bit offset+i of the buffer");
    } else {
        check!(v.is_none(), "view out of range is None");
        check!(o.is_none(), "owned out of range is None");
    }
    check!(b.len() == bits, "len is the number of bits");
    check!(b.is_empty() == (bits == 0), "is_empty iff no bits");
}

/// Borrowed, consuming and indexed reads of a whole bitmap agree with the buffer.
fn iter_post<S: Buffer>(b: Bitmap<S>, bytes: &[u8], bits: usize, offset: usize) {
    let mut n = 0;
    for x in &b {
        check!(n < bits, "borrowed iteration yields at most len items");
        check!(x == spec::bit(bytes, offset + n), "borrowed item i is bit offset+i");
        n += 1;
    }
    check!(n == bits, "borrowed iteration yields exactly len items");
    let mut n = 0;
    for x in b.iter_views() {
        check!(n < bits, "iter_views yields at most len items");
        check!(x == spec::bit(bytes, offset + n), "iter_views item i is bit offset+i");
        n += 1;
    }
    check!(n == bits, "iter_views yields exactly len items");
    let mut n = 0;
    for x in b.into_iter_owned() {
        check!(n < bits, "consuming iteration yields at most len items");
        check!(x == spec::bit(bytes, offset + n), "consumed item i is bit offset+i");
        n += 1;
    }
    check!(n == bits, "consuming iteration yields exactly len items");
}

/// Whole iteration at a fixed shape, every content of the buffer.
fn iter_shape<const N: usize>(offset: usize, bits: usize) {
    let bytes: [u8; N] = any();
    let b = Bitmap::<ArrayBuffer<N>>::try_from_parts(bytes, bits, offset).ok().expect("OB: fits");
    iter_post(b, &bytes, bits, offset);
}

/// The first items of an iteration. Every byte boundary puts the iterator in
/// the state it starts in (with a stale byte, which the tenth item covers), so
/// the items after it follow by induction over the bytes that remain.
fn first_items(mut it: impl Iterator<Item = bool>, bytes: &[u8], bits: usize, offset: usize) {
    let mut j = 0;
    while j < 10 {
        match it.next() {
            Some(x) => check!(j < bits && x == spec::bit(bytes, offset + j), "item i of an iteration is bit offset+i"),
            None => {
                check!(j >= bits, "an iteration yields len items");
                return;
            }
        }
        j += 1;
    }
}
fn step_any(how: usize) {
    let bytes = any_slice::<u8>(40);
    let (bits, offset): (usize, usize) = (any(), nd::below(9));
    let Ok(b) = Bitmap::<SliceBuffer<'static>>::try_from_parts(bytes, bits, offset) else { return };
    match how {
        0 => first_items((&b).into_iter(), bytes, bits, offset),
        1 => first_items(b.iter_views(), bytes, bits, offset),
        2 => first_items(b.into_iter(), bytes, bits, offset),
        _ => first_items(b.into_iter_owned(), bytes, bits, offset),
    }
}

obligations! { "C01";
    proof c01_step_ref [12] "&Bitmap iteration, ten items from any byte: any bytes that remain (up to 2^40), offset up to 8, any bits" { step_any(0) }
    proof c01_step_views [12] "Bitmap::iter_views, ten items from any byte: any bytes that remain (up to 2^40), offset up to 8, any bits" { step_any(1) }
    proof c01_step_into [12] "Bitmap::into_iter, ten items from any byte: any bytes that remain (up to 2^40), offset up to 8, any bits" { step_any(2) }
    proof c01_step_owned [12] "Bitmap::into_iter_owned, ten items from any byte: any bytes that remain (up to 2^40), offset up to 8, any bits" { step_any(3) }
    proof c01_view_slice [1] "Bitmap::view/owned/len over borrowed bytes: every buffer up to 2^40 bytes, every bits/offset/index" {
        let bytes = any_slice::<u8>(40);
        let (bits, offset, index): (usize, usize, usize) = (any(), any(), any());
        if let Ok(b) = Bitmap::<SliceBuffer<'static>>::try_from_parts(bytes, bits, offset) {
            view_post(&b, bytes, bits, offset, index);
        }
    }
    proof c01_view_growable [1] "Bitmap::view/owned/len over an arbitrary growable buffer: every length, bits, offset, index" {
        let bytes = Sym::<u8>::any(40, 0);
        let copy: &'static [u8] = unsafe { core::slice::from_raw_parts(bytes.sl().as_ptr(), bytes.sl().len()) };
        let (bits, offset, index): (usize, usize, usize) = (any(), any(), any());
        if let Ok(b) = Bitmap::<SymBuf>::try_from_parts(bytes, bits, offset) {
            view_post(&b, copy, bits, offset, index);
        }
    }
    bounded c01_iter_0_0 [20] "iteration, 1 byte, offset 0, 0 bits: every content" { iter_shape::<1>(0, 0) }
    bounded c01_iter_0_8 [20] "iteration, 1 byte, offset 0, 8 bits: every content" { iter_shape::<1>(0, 8) }
    bounded c01_iter_3_4 [20] "iteration, 1 byte, offset 3, 4 bits: every content" { iter_shape::<1>(3, 4) }
    bounded c01_iter_5_9 [20] "iteration, 3 bytes, offset 5, 9 bits: every content" { iter_shape::<3>(5, 9) }
    bounded c01_iter_8_10 [20] "iteration, 3 bytes, offset 8, 10 bits: every content" { iter_shape::<3>(8, 10) }
    bounded c01_iter_11_5 [20] "iteration, 2 bytes, offset 11, 5 bits: every content" { iter_shape::<2>(11, 5) }
    bounded c01_iter_16_0 [20] "iteration, 2 bytes, offset 16, 0 bits: every content" { iter_shape::<2>(16, 0) }
}

#[cfg(not(kani))]
fn random_bytes(max: usize) -> Vec<u8> {
    let n = nd::below(max);
    (0..n).map(|_| any()).collect()
}

#[cfg(not(kani))]
fn run_all(bytes: Vec<u8>) {
    crate::gen_::reseed();
    let cap = bytes.len() * 8;
    let offset = nd::below(cap + 1);
    let bits = nd::below(cap - offset + 1);
    macro_rules! go { ($s:ty, $b:expr) => {{
        let b = Bitmap::<$s>::try_from_parts($b, bits, offset).ok().expect("OB: fits");
        for i in 0..cap + 20 { view_post(&b, &bytes, bits, offset, i); }
        for i in [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX - offset, 1 << 61] { view_post(&b, &bytes, bits, offset, i); }
        let want: Vec<bool> = (0..bits).map(|i| spec::bit(&bytes, offset + i)).collect();
        crate::gen_::walk((&b).into_iter(), &want, crate::gen_::Hints::Ignore, |x, w| x == *w);
        iter_post(b, &bytes, bits, offset);
        crate::gen_::travel(Bitmap::<$s>::try_from_parts($b, bits, offset).ok().expect("OB: fits"), &want);
    }} }
    go!(VecBuffer, bytes.clone());
    go!(BoxBuffer, bytes.clone().into_boxed_slice());
    go!(RcBuffer, bytes.clone().into());
    go!(ArcBuffer, bytes.clone().into());
    go!(SliceBuffer<'_>, &bytes[..]);
    go!(AvBuf, Av::from_fn(bytes.len(), |i| bytes[i]));
}

runs! { "C01";
    c01_run_small "up to 6 bytes, six storages" { run_all(random_bytes(7)) }
    c01_run_large "up to 160 bytes, six storages" { run_all(random_bytes(160)) }
    c01_run_huge "around 4096 bits, six storages" {
        let n = 500 + nd::below(40);
        run_all((0..n).map(|_| any()).collect())
    }
}
