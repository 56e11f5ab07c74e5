//! C04: null and valid counts equal the number of cleared and set validity bits.

use narrow::{
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{ArrayBuffer, ArcBuffer, BoxBuffer, Buffer, SliceBuffer, VecBuffer},
    collection::Collection,
    length::Length,
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

/// Every answer, against the counts `nulls` and `valid` over `len` positions.
fn answers<V: ValidityBitmap>(v: &V, nulls: usize, valid: usize) {
    let n = v.null_count();
    check!(n == nulls, "null_count is the number of cleared bits");
    check!(v.valid_count() == valid, "valid_count is the number of set bits");
    check!(v.len() == nulls + valid, "the counts add up to the length");
    check!(v.all_null() == (valid == 0), "all_null agrees with the counts");
    check!(v.any_valid() == (valid != 0), "any_valid agrees with the counts");
    check!(v.all_valid() == (nulls == 0), "all_valid agrees with the counts");
}

/// Counting at every fitting bits and offset over `N` arbitrary bytes.
fn count_any<const N: usize>() {
    let bytes: [u8; N] = any();
    let bits = nd::below(N * 8 + 1);
    let offset = nd::below(N * 8 + 1 - bits);
    let b = Bitmap::<ArrayBuffer<N>>::try_from_parts(bytes, bits, offset).ok().expect("OB: fits");
    let v = Validity::<Ident, ArrayBuffer<N>>::try_from_parts(Ident(bits), b).ok().expect("OB: lengths match");
    let (mut set, mut i) = (0, 0);
    while i < N * 8 {
        if i >= offset && i < offset + bits && spec::bit(&bytes, i) {
            set += 1;
        }
        i += 1;
    }
    answers(&v, bits - set, set);
}

fn any_null_shape<const N: usize>(offset: usize, bits: usize) {
    let bytes: [u8; N] = any();
    let b = Bitmap::<ArrayBuffer<N>>::try_from_parts(bytes, bits, offset).ok().expect("OB: fits");
    let v = Validity::<Ident, ArrayBuffer<N>>::try_from_parts(Ident(bits), b).ok().expect("OB: lengths match");
    let (mut cleared, mut i) = (false, 0);
    while i < bits {
        cleared |= !spec::bit(&bytes, offset + i);
        i += 1;
    }
    check!(v.any_null() == cleared, "any_null iff some validity bit is cleared");
}

obligations! { "C04";
    proof c04_positions [1] "is_valid/is_null per position over any validity bitmap: every buffer up to 2^40 bytes, bits, offset, index" {
        let bytes = any_slice::<u8>(40);
        let (bits, offset, i): (usize, usize, usize) = (any(), any(), any());
        if let Ok(b) = Bitmap::<SliceBuffer<'static>>::try_from_parts(bytes, bits, offset) {
            if let Ok(v) = Validity::<Ident, SliceBuffer<'static>>::try_from_parts(Ident(bits), b) {
                check!(v.len() == bits, "length is the number of validity bits");
                if i < bits {
                    let set = spec::bit(bytes, offset + i);
                    check!(v.is_valid(i) == Some(set), "is_valid(i) is validity bit offset+i");
                    check!(v.is_null(i) == Some(!set), "is_null(i) is the negated validity bit");
                } else {
                    check!(v.is_valid(i).is_none() && v.is_null(i).is_none(), "out of range gives no answer");
                }
                check!(v.bitmap_ref().is_some(), "the bitmap is exposed");
            }
        }
    }
    proof c04_absent [1] "an absent bitmap means no nulls: every length, every index" {
        let (n, i): (usize, usize) = (any(), any());
        let v = Validity::<Ident, VecBuffer>::from_collection(Ident(n));
        answers(&v, 0, n);
        check!(!v.any_null(), "no bitmap, no null");
        check!(v.is_valid(i) == (i < n).then_some(true), "no bitmap: every position is valid");
        check!(v.is_null(i) == (i < n).then_some(false), "no bitmap: no position is null");
        check!(v.bitmap_ref().is_none(), "no bitmap is exposed");
    }
    bounded c04_count_1 [10] "counts over 1 byte: every content, bits, offset" { count_any::<1>() }
    bounded c04_count_2 [18] "counts over 2 bytes: every content, bits, offset" { count_any::<2>() }
    bounded c04_count_3 [26] "counts over 3 bytes: every content, bits, offset" { count_any::<3>() }
    deep c04_count_4 [34] "counts over 4 bytes: every content, bits, offset" { count_any::<4>() }
    bounded c04_any_null_0_8 [20] "any_null, 1 byte, offset 0, 8 bits" { any_null_shape::<1>(0, 8) }
    bounded c04_any_null_3_7 [20] "any_null, 2 bytes, offset 3, 7 bits" { any_null_shape::<2>(3, 7) }
    bounded c04_any_null_8_3 [20] "any_null, 2 bytes, offset 8, 3 bits" { any_null_shape::<2>(8, 3) }
    bounded c04_any_null_5_0 [20] "any_null, 1 byte, offset 5, no bits" { any_null_shape::<1>(5, 0) }
}

#[cfg(not(kani))]
fn wide(nbytes: usize) {
    let fill = nd::below(4);
    let bytes: Vec<u8> = (0..nbytes).map(|_| match fill { 0 => 0, 1 => 0xff, _ => any() }).collect();
    let offset = nd::below(nbytes * 8 + 1);
    let bits = nd::below(nbytes * 8 - offset + 1);
    let set = (0..bits).filter(|i| spec::bit(&bytes, offset + i)).count();
    macro_rules! go { ($s:ty, $b:expr) => {{
        let b = Bitmap::<$s>::try_from_parts($b, bits, offset).ok().expect("OB: fits");
        let v = Validity::<Ident, $s>::try_from_parts(Ident(bits), b).ok().expect("OB: lengths match");
        answers(&v, bits - set, set);
        check!(v.any_null() == (set != bits), "any_null agrees with the counts");
        for i in (0..bits + 9).chain([usize::MAX, usize::MAX - offset, 1 << 61]) {
            check!(v.is_valid(i) == (i < bits).then(|| spec::bit(&bytes, offset + i)), "is_valid per position");
            check!(v.is_null(i) == (i < bits).then(|| !spec::bit(&bytes, offset + i)), "is_null per position");
        }
    }} }
    go!(VecBuffer, bytes.clone());
    go!(BoxBuffer, bytes.clone().into_boxed_slice());
    go!(ArcBuffer, bytes.clone().into());
    go!(SliceBuffer<'_>, &bytes[..]);
    // over another bitmap as the values: the validity bitmap is the one counted
    let b = Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), bits, offset).ok().expect("OB: fits");
    let values = (0..bits).map(|_| true).collect::<Bitmap>();
    let v = Validity::<Bitmap, VecBuffer>::try_from_parts(values, b).ok().expect("OB: lengths match");
    answers(&v, bits - set, set);
}

runs! { "C04";
    c04_run_small "up to 5 bytes, five storages" { wide(nd::below(6)) }
    c04_run_medium "up to 200 bytes" { wide(nd::below(200)) }
    c04_run_long "up to 40000 bytes" {
        let n = 1000 + nd::below(39000);
        let seed: u64 = any();
        let bytes: Vec<u8> = (0..n as u64).map(|i| (seed.wrapping_mul(i * i + 7) >> 23) as u8).collect();
        let offset = nd::below(70);
        let bits = n * 8 - offset - nd::below(70);
        let set = (0..bits).filter(|i| spec::bit(&bytes, offset + i)).count();
        let b = Bitmap::<VecBuffer>::try_from_parts(bytes, bits, offset).ok().expect("OB: fits");
        let v = Validity::<Ident, VecBuffer>::try_from_parts(Ident(bits), b).ok().expect("OB: lengths match");
        answers(&v, bits - set, set);
        check!(v.any_null() == (set != bits), "any_null agrees with the counts");
    }
    c04_run_sparse "up to 140000 bytes, all positions alike but for up to two" {
        use crate::gen_::{coin, pick};
        crate::gen_::reseed();
        let n = 3 + match pick(3) { 0 => pick(60), 1 => pick(3000), _ => pick(140_000) };
        let fill = if coin() { 0xff } else { 0u8 };
        let mut bytes = vec![fill; n];
        let offset = pick(n.min(20) * 8);
        let bits = n * 8 - offset - pick((n * 8 - offset).min(30));
        let mut set = if fill == 0 { 0 } else { bits };
        for _ in 0..pick(3) {
            // anywhere, or next to an end of the range
            let k = match pick(4) { 0 => pick(n * 8), 1 => (offset + pick(9)).saturating_sub(pick(9)), 2 => offset + bits - pick(9).min(bits), _ => offset + pick(bits.max(1)) };
            let k = k.min(n * 8 - 1);
            bytes[k / 8] ^= 1 << (k % 8);
            if k >= offset && k < offset + bits {
                if bytes[k / 8] & (1 << (k % 8)) != 0 { set += 1 } else { set -= 1 }
            }
        }
        let b = Bitmap::<VecBuffer>::try_from_parts(bytes, bits, offset).ok().expect("OB: fits");
        let v = Validity::<Ident, VecBuffer>::try_from_parts(Ident(bits), b).ok().expect("OB: lengths match");
        answers(&v, bits - set, set);
        check!(v.any_null() == (set != bits), "any_null agrees with the counts");
    }
    c04_run_built "counts of collected, appended and truncated nullable collections" {
        let mut model: Vec<Option<u32>> = (0..nd::below(60)).map(|_| any::<bool>().then(any)).collect();
        let mut v = if any() { model.iter().copied().collect::<Validity<Vec<u32>>>() } else {
            model.iter_mut().for_each(|x| *x = Some(x.unwrap_or(0)));
            Validity::<Vec<u32>>::from_collection(model.iter().map(|x| x.unwrap()).collect())
        };
        for _ in 0..nd::below(4) {
            let more: Vec<Option<u32>> = (0..nd::below(30)).map(|_| any::<bool>().then(any)).collect();
            v.extend(more.iter().copied());
            model.extend(more);
            let nulls = model.iter().filter(|x| x.is_none()).count();
            answers(&v, nulls, model.len() - nulls);
            check!(v.any_null() == (nulls != 0), "any_null agrees with the counts");
            for i in 0..model.len() {
                check!(v.is_null(i) == Some(model[i].is_none()), "is_null of an appended item");
            }
        }
    }
}
