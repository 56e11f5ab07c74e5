//! C05: a nullable collection pairs each value with its own validity bit.

use narrow::{
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{ArrayBuffer, ArcBuffer, BoxBuffer, Buffer, BufferRef, SliceBuffer, VecBuffer},
    collection::{ChildRef, Collection},
    length::Length,
    validity::{Validity, ValidityError},
};

use crate::{nd, nd::any, spec, store::*};

fn pair<const N: usize>(bytes: [u8; N], offset: usize, bits: usize) -> Validity<Ident, ArrayBuffer<N>> {
    let b = Bitmap::<ArrayBuffer<N>>::try_from_parts(bytes, bits, offset).ok().expect("OB: fits");
    Validity::<Ident, ArrayBuffer<N>>::try_from_parts(Ident(bits), b).ok().expect("OB: lengths match")
}
fn borrowed<const N: usize>(offset: usize, bits: usize) {
    let bytes: [u8; N] = any();
    let v = pair(bytes, offset, bits);
    let mut it = v.iter_views();
    let mut i = 0;
    while i < bits {
        check!(it.next() == Some(spec::bit(&bytes, offset + i).then_some(i)), "borrowed item i is value i under its own bit");
        i += 1;
    }
    check!(it.next().is_none(), "borrowed iteration yields len items");
}
fn consuming<const N: usize>(offset: usize, bits: usize) {
    let bytes: [u8; N] = any();
    let mut it = pair(bytes, offset, bits).into_iter_owned();
    let mut i = 0;
    while i < bits {
        check!(it.next() == Some(spec::bit(&bytes, offset + i).then_some(i)), "consumed item i is value i under its own bit");
        i += 1;
    }
    check!(it.next().is_none(), "consuming iteration yields len items");
}

/// The first items, with and without bitmap: see c01's `first_items`.
fn first_items(mut it: impl Iterator<Item = Option<usize>>, n: usize, bits: Option<(&[u8], usize)>) {
    let mut j = 0;
    while j < 10 {
        match it.next() {
            Some(x) => {
                let here = match bits { None => true, Some((b, o)) => j < n && spec::bit(b, o + j) };
                check!(j < n && x == here.then_some(j), "item i of an iteration is value i under its own bit");
            }
            None => {
                check!(j >= n, "an iteration yields len items");
                return;
            }
        }
        j += 1;
    }
}
fn step_any(consuming: bool, offset: usize) {
    let bytes = any_slice::<u8>(40);
    let n: usize = any();
    let Ok(b) = Bitmap::<SliceBuffer<'static>>::try_from_parts(bytes, n, offset) else { return };
    let v = Validity::<Ident, SliceBuffer<'static>>::try_from_parts(Ident(n), b).ok().expect("OB: lengths match");
    let m = Some((bytes, offset));
    if consuming { first_items(v.into_iter_owned(), n, m) } else { first_items(v.iter_views(), n, m) }
}

obligations! { "C05";
    proof c05_step_borrowed [12] "borrowed iteration, ten items from any byte: any values, any bitmap (up to 2^40 bytes)" { step_any(false, 0) }
    proof c05_step_consuming [12] "consuming iteration, ten items from any byte: any values, any bitmap (up to 2^40 bytes)" { step_any(true, 0) }
    proof c05_step_borrowed_at [12] "borrowed iteration, ten items at a bit offset: any values, any bitmap (up to 2^40 bytes)" { step_any(false, 5) }
    proof c05_step_consuming_at [12] "consuming iteration, ten items at a bit offset: any values, any bitmap (up to 2^40 bytes)" { step_any(true, 5) }
    proof c05_step_absent [12] "iteration without bitmap, ten items: any values" {
        let n: usize = any();
        first_items(Validity::<Ident, SliceBuffer<'static>>::from_collection(Ident(n)).iter_views(), n, None);
        first_items(Validity::<Ident, SliceBuffer<'static>>::from_collection(Ident(n)).into_iter_owned(), n, None);
    }
    proof c05_parts_and_reads [1] "Validity::try_from_parts/into_parts/view/owned: any values length, any bitmap over up to 2^40 bytes, any index" {
        let bytes = any_slice::<u8>(40);
        let (n, bits, offset, i): (usize, usize, usize, usize) = (any(), any(), any(), any());
        if let Ok(b) = Bitmap::<SliceBuffer<'static>>::try_from_parts(bytes, bits, offset) {
            match Validity::<Ident, SliceBuffer<'static>>::try_from_parts(Ident(n), b) {
                Ok(v) => {
                    check!(n == bits, "combining succeeds only for equal lengths");
                    check!(v.len() == n, "length");
                    let want = if i >= n { None } else if spec::bit(bytes, offset + i) { Some(Some(i)) } else { Some(None) };
                    check!(v.view(i) == want, "view(i) is value i under validity bit i");
                    check!(v.owned(i) == want, "owned(i) is value i under validity bit i");
                    check!(*v.child_ref() == Ident(n), "child_ref is the values");
                    let (c, m) = v.into_parts();
                    check!(c == Ident(n), "into_parts returns the values");
                    let Some(m) = m else { check!(false, "into_parts returns the bitmap"); return };
                    let (p, b2, o2) = m.into_parts();
                    check!(p.as_ptr() == bytes.as_ptr() && p.len() == bytes.len() && b2 == bits && o2 == offset, "into_parts returns the bitmap unchanged");
                }
                Err(e) => {
                    check!(n != bits, "combining fails only for different lengths");
                    check!(e == ValidityError::LengthMismatch { collection: n, bitmap: bits }, "both lengths are reported");
                }
            }
        }
    }
    proof c05_no_bitmap [1] "Validity without bitmap: any values length, any index" {
        let (n, i): (usize, usize) = (any(), any());
        let v = Validity::<Ident, VecBuffer>::from_collection(Ident(n));
        check!(v.len() == n, "length without bitmap");
        let want = if i < n { Some(Some(i)) } else { None };
        check!(v.view(i) == want && v.owned(i) == want, "without bitmap every value is present");
        let mut it = v.iter_views();
        check!(it.next() == if n > 0 { Some(Some(0)) } else { None }, "borrowed iteration starts at value 0");
        check!(it.next() == if n > 1 { Some(Some(1)) } else { None }, "borrowed iteration goes on in order");
        let (c, m) = v.into_parts();
        check!(c == Ident(n) && m.is_none(), "into_parts without bitmap");
        let mut it = Validity::<Ident, VecBuffer>::from_collection(Ident(n)).into_iter_owned();
        check!(it.next() == if n > 0 { Some(Some(0)) } else { None }, "consuming iteration starts at value 0");
        check!(it.next() == if n > 1 { Some(Some(1)) } else { None }, "consuming iteration goes on in order");
    }
    bounded c05_borrowed_0_8 [20] "borrowed iteration, 1 byte, offset 0, 8 positions, every validity" { borrowed::<1>(0, 8) }
    bounded c05_borrowed_3_7 [20] "borrowed iteration, 2 bytes, offset 3, 7 positions, every validity" { borrowed::<2>(3, 7) }
    bounded c05_borrowed_8_2 [20] "borrowed iteration, 2 bytes, offset 8, 2 positions, every validity" { borrowed::<2>(8, 2) }
    bounded c05_borrowed_4_0 [20] "borrowed iteration, 1 byte, offset 4, no position" { borrowed::<1>(4, 0) }
    bounded c05_consuming_0_8 [20] "consuming iteration, 1 byte, offset 0, 8 positions, every validity" { consuming::<1>(0, 8) }
    bounded c05_consuming_3_7 [20] "consuming iteration, 2 bytes, offset 3, 7 positions, every validity" { consuming::<2>(3, 7) }
    bounded c05_consuming_8_2 [20] "consuming iteration, 2 bytes, offset 8, 2 positions, every validity" { consuming::<2>(8, 2) }
}

#[cfg(not(kani))]
fn wide(nbytes: usize) {
    crate::gen_::reseed();
    let bytes: Vec<u8> = (0..nbytes).map(|_| any()).collect();
    let offset = nd::below(nbytes * 8 + 1);
    let bits = nd::below(nbytes * 8 - offset + 1);
    let n = if nd::below(4) == 0 { nd::below(nbytes * 8 + 3) } else { bits };
    let vals: Vec<u64> = (0..n).map(|i| (i as u64 + 1) * 3).collect();
    let lists: Vec<Vec<u8>> = (0..n).map(|i| (0..i % 4).map(|k| (i * 5 + k) as u8).collect()).collect();
    macro_rules! go { ($s:ty, $b:expr, $c:ty, $make:expr, $own:expr) => {{
        let b = Bitmap::<$s>::try_from_parts($b, bits, offset).ok().expect("OB: fits");
        match Validity::<$c, $s>::try_from_parts($make, b) {
            Err(e) => check!(n != bits && e == ValidityError::LengthMismatch { collection: n, bitmap: bits }, "rejected iff lengths differ"),
            Ok(v) => {
                check!(n == bits, "accepted iff lengths agree");
                let want: Vec<Option<_>> = (0..n).map(|i| spec::bit(&bytes, offset + i).then(|| $own(i))).collect();
                check!(v.len() == n, "length");
                for i in (0..n).chain([n, n + 1, usize::MAX, usize::MAX - offset]) {
                    check!(v.owned(i) == want.get(i).cloned(), "owned read");
                    check!(v.view(i).is_some() == (i < n), "indexed read in range");
                }
                check!((&v).into_iter().map(|x| x.map(narrow::collection::owned::IntoOwned::into_owned)).eq(want.iter().cloned()), "borrowed iteration");
                crate::gen_::walk((&v).into_iter(), &want, crate::gen_::Hints::Ignore, |x, w| x.map(narrow::collection::owned::IntoOwned::into_owned) == *w);
                check!(v.into_iter_owned().eq(want.iter().cloned()), "consuming iteration");
                let b = Bitmap::<$s>::try_from_parts($b, bits, offset).ok().expect("OB: fits");
                crate::gen_::travel(Validity::<$c, $s>::try_from_parts($make, b).ok().expect("OB: lengths agree"), &want);
            }
        }
    }} }
    go!(VecBuffer, bytes.clone(), Vec<u64>, vals.clone(), |i: usize| vals[i]);
    go!(BoxBuffer, bytes.clone().into_boxed_slice(), Box<[u64]>, vals.clone().into_boxed_slice(), |i: usize| vals[i]);
    go!(ArcBuffer, bytes.clone().into(), Vec<u64>, vals.clone(), |i: usize| vals[i]);
    go!(SliceBuffer<'_>, &bytes[..], &[u64], &vals[..], |i: usize| vals[i]);
    go!(VecBuffer, bytes.clone(), narrow::offset::Offsets<Vec<u8>>, lists.iter().cloned().collect(), |i: usize| lists[i].clone());
    go!(VecBuffer, bytes.clone(), Bitmap, vals.iter().map(|x| x % 2 == 0).collect(), |i: usize| vals[i] % 2 == 0);
    go!(VecBuffer, bytes.clone(), narrow::collection::flatten::Flatten<Vec<u64>, 2>, vals.iter().map(|x| [*x, x + 1]).collect(), |i: usize| [vals[i], vals[i] + 1]);
}

runs! { "C05";
    c05_run_small "values of seven kinds, bitmaps up to 4 bytes" { wide(nd::below(5)) }
    c05_run_medium "values of seven kinds, bitmaps up to 60 bytes" { wide(nd::below(60)) }
    c05_run_absent "no bitmap, real values" {
        let vals: Vec<u64> = (0..nd::below(40)).map(|_| any()).collect();
        let v = Validity::<Vec<u64>>::from_collection(vals.clone());
        check!(v.len() == vals.len(), "length");
        for i in 0..vals.len() + 3 { check!(v.view(i) == vals.get(i).map(|x| Some(*x)), "view without bitmap"); }
        crate::gen_::reseed();
        crate::gen_::travel(Validity::<Vec<u64>>::from_collection(vals.clone()), &vals.iter().map(|x| Some(*x)).collect::<Vec<_>>());
        check!(v.iter_views().eq(vals.iter().map(|x| Some(*x))), "borrowed iteration without bitmap");
        check!(v.into_iter_owned().eq(vals.iter().map(|x| Some(*x))), "consuming iteration without bitmap");
    }
}
