//! C07: list offsets are accepted exactly when they are valid.

use narrow::{
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, Buffer, BufferRef, SliceBuffer, VecBuffer},
    collection::{ChildRef, Collection},
    length::Length,
    offset::{Offset, Offsets, OffsetsError},
};

use crate::{nd, nd::any, store::*};

/// The verdict the documentation asks for, in buffer order.
fn verdict(offsets: &[i64], data: usize) -> Result<(), OffsetsError> {
    if offsets.is_empty() {
        return Err(OffsetsError::Empty);
    }
    let mut i = 0;
    while i < offsets.len() {
        let x = offsets[i];
        if x < 0 {
            return Err(OffsetsError::Negative { index: i });
        }
        if i == 0 && x != 0 {
            return Err(OffsetsError::NonZeroFirst { first: x as usize });
        }
        if i > 0 && x < offsets[i - 1] {
            return Err(OffsetsError::NonMonotonic { index: i });
        }
        i += 1;
    }
    let last = offsets[offsets.len() - 1] as usize;
    if last > data { Err(OffsetsError::OutOfBounds { last, data }) } else { Ok(()) }
}

/// `N` arbitrary offsets over a child of arbitrary length.
fn shape<O: Offset + nd::Any + Into<i64>, const N: usize>() {
    let offsets: [O; N] = core::array::from_fn(|_| any());
    let wide: [i64; N] = core::array::from_fn(|i| offsets[i].into());
    let data: usize = any();
    let want = verdict(&wide, data);
    match Offsets::<Ident, O, ArrayBuffer<N>, Vec<usize>>::try_from_parts(Ident(data), offsets) {
        Ok(o) => {
            check!(want.is_ok(), "accepted only when the offsets are valid");
            check!(o.len() + 1 == N, "one list less than offsets");
            check!(*o.child_ref() == Ident(data), "the child is kept");
            let (c, b) = o.into_parts();
            check!(c == Ident(data), "into_parts returns the child");
            let mut i = 0;
            while i < N {
                check!(b[i].into() == wide[i], "into_parts returns the offsets");
                i += 1;
            }
        }
        Err(e) => check!(want == Err(e), "the first failing condition is reported with its position and numbers"),
    }
}

obligations! { "C07";
    bounded c07_i32_0 [9] "no offset, any child length" { shape::<i32, 0>() }
    bounded c07_i32_1 [9] "1 offset of 32 bits, any child length" { shape::<i32, 1>() }
    bounded c07_i32_2 [9] "2 offsets of 32 bits, any child length" { shape::<i32, 2>() }
    bounded c07_i32_4 [9] "4 offsets of 32 bits, any child length" { shape::<i32, 4>() }
    bounded c07_i64_0 [9] "no offset of 64 bits, any child length" { shape::<i64, 0>() }
    bounded c07_i64_1 [9] "1 offset of 64 bits, any child length" { shape::<i64, 1>() }
    bounded c07_i64_3 [9] "3 offsets of 64 bits, any child length" { shape::<i64, 3>() }
    bounded c07_i64_4 [9] "4 offsets of 64 bits, any child length" { shape::<i64, 4>() }
    deep c07_i32_7 [12] "7 offsets of 32 bits, any child length" { shape::<i32, 7>() }
    deep c07_i64_7 [12] "7 offsets of 64 bits, any child length" { shape::<i64, 7>() }
}

#[cfg(not(kani))]
fn random<O: Offset + Into<i64> + TryFrom<i64> + core::fmt::Debug + PartialEq>(max: usize)
where
    <O as TryFrom<i64>>::Error: core::fmt::Debug,
{
    let n = nd::below(max);
    let top: i64 = O::try_from(i64::MAX).map(|_| i64::MAX).unwrap_or(i64::from(i32::MAX));
    let mut w: Vec<i64> = Vec::new();
    let mut x = 0i64;
    for i in 0..n {
        if i > 0 {
            x = x.saturating_add(nd::below(5) as i64).min(top);
            if nd::below(40) == 0 { x = top - nd::below(3) as i64 }
        }
        w.push(x);
    }
    for _ in 0..nd::below(3) {
        if n > 0 {
            let k = nd::below(n);
            w[k] = match nd::below(5) { 0 => -1, 1 => w[k].saturating_sub(1), 2 => w[k].saturating_add(1), 3 => -top - 1, _ => top };
            w[k] = w[k].clamp(-top - 1, top);
        }
    }
    judge::<O>(w);
}
#[cfg(not(kani))]
fn long<O: Offset + Into<i64> + TryFrom<i64> + core::fmt::Debug + PartialEq>()
where
    <O as TryFrom<i64>>::Error: core::fmt::Debug,
{
    use crate::gen_::{coin, pick};
    crate::gen_::reseed();
    let n = 1 + if coin() { pick(5000) } else { pick(140_000) };
    let mut x = 0;
    let mut w: Vec<i64> = (0..n).map(|i| { if i > 0 { x += pick(3) as i64 } x }).collect();
    if pick(4) > 0 {
        let k = pick(n);
        w[k] = match pick(4) { 0 => -1, 1 => w[k] - 1, 2 => w[k] - 3, _ => w[k] + 3 };
    }
    judge::<O>(w);
}
#[cfg(not(kani))]
fn judge<O: Offset + Into<i64> + TryFrom<i64> + core::fmt::Debug + PartialEq>(w: Vec<i64>)
where
    <O as TryFrom<i64>>::Error: core::fmt::Debug,
{
    let n = w.len();
    let last = w.last().copied().unwrap_or(0).max(0) as usize;
    let data = match nd::below(5) { 0 => last.saturating_sub(1), 1 => last + 1, 2 => usize::MAX, 3 => nd::below(10), _ => last };
    let want = verdict(&w, data);
    let o: Vec<O> = w.iter().map(|x| O::try_from(*x).unwrap()).collect();
    macro_rules! go { ($s:ty, $b:expr, $eq:expr) => {{
        match Offsets::<Ident, O, $s, Vec<usize>>::try_from_parts(Ident(data), $b) {
            Ok(v) => {
                check!(want.is_ok(), "accepted only when the offsets are valid");
                check!(v.len() + 1 == n, "one list less than offsets");
                let (c, b) = v.into_parts();
                check!(c == Ident(data), "into_parts returns the child");
                check!(b[..] == o[..], "into_parts returns the offsets");
            }
            Err(e) => check!(want == Err(e), "the first failing condition is reported with its position and numbers"),
        }
    }} }
    go!(VecBuffer, o.clone(), |b: Vec<O>| b == o);
    go!(BoxBuffer, o.clone().into_boxed_slice(), |b| b == o);
    go!(ArcBuffer, o.clone().into(), |b| b == o);
    go!(SliceBuffer<'_>, &o[..], |b| b == o);
}

runs! { "C07";
    c07_run_32 "up to 12 offsets of 32 bits, four storages" { random::<i32>(13) }
    c07_run_64 "up to 12 offsets of 64 bits, four storages" { random::<i64>(13) }
    c07_run_32_long "up to 600 offsets of 32 bits, four storages" { random::<i32>(600) }
    c07_run_64_long "up to 600 offsets of 64 bits, four storages" { random::<i64>(600) }
    c07_run_32_huge "up to 140000 offsets of 32 bits, four storages" { long::<i32>() }
    c07_run_64_huge "up to 140000 offsets of 64 bits, four storages" { long::<i64>() }
}
