//! C11: truncation keeps exactly the leading items.

use narrow::{
    bitmap::Bitmap,
    buffer::{Buffer, BufferRef, SliceBuffer, VecBuffer},
    collection::{ChildRef, Collection, CollectionRealloc, flatten::Flatten},
    length::Length,
    offset::{Offset, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

fn min(a: usize, b: usize) -> usize {
    if a < b { a } else { b }
}

fn bitmap_any() {
    let bytes = Sym::<u8>::any(40, 0);
    let (bits, offset, i, k): (usize, usize, usize, usize) = (any(), any(), any(), any());
    if let Ok(mut b) = Bitmap::<SymBuf>::try_from_parts(bytes, bits, offset) {
        let old = b.view(i);
        b.truncate(k);
        check!(b.len() == min(k, bits), "min(k, length) items remain");
        check!(b.view(i) == if i < k { old } else { None }, "a remaining item reads as before");
    }
}
/// Truncate, then append one bit onto whatever is left behind.
fn bitmap_then<const N: usize>(offset: usize, bits: usize, k: usize, n: usize) {
    let bytes: [u8; N] = any();
    let more: u64 = any();
    let mut b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(N, |i| bytes[i]), bits, offset).ok().expect("OB: fits");
    b.truncate(k);
    b.extend(Bits { bits: more, i: 0, n });
    check!(b.len() == k + n, "the new items follow the remaining ones");
    let mut i = 0;
    while i < k {
        check!(b.view(i) == Some(spec::bit(&bytes, offset + i)), "remaining items are unchanged");
        i += 1;
    }
    while i < k + n {
        check!(b.view(i) == Some((more >> (i - k)) & 1 == 1), "nothing of the dropped items reappears");
        i += 1;
    }
}
fn validity_any(stored: bool) {
    let (n, k): (usize, usize) = (any(), any());
    let child = Watched { len: n, watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    let mut v = if stored {
        let (bits, offset): (usize, usize) = (n, any());
        let Ok(b) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 0), bits, offset) else { nd::stop() };
        Validity::<Watched, SymBuf>::try_from_parts(child, b).ok().expect("OB: lengths match")
    } else {
        Validity::<Watched, SymBuf>::from_collection(child)
    };
    let old = v.view(child.watch);
    v.truncate(k);
    check!(v.len() == min(k, n), "min(k, length) items remain");
    check!(v.child_ref().len == min(k, n), "values and validity stay aligned");
    check!(v.view(child.watch) == if child.watch < k { old } else { None }, "a remaining item reads as before");
}
fn offsets_any<O: Offset + nd::Any>(then_append: bool) {
    let child = Watched { len: any(), watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    let b = Sym::<O>::exact(1, 0);
    b.set(0, O::default());
    let mut o: Offsets<Watched, O, SymBuf, Watched> = Offsets::try_from_parts(child, b).ok().expect("OB: valid offsets");
    let b: &Sym<O> = o.buffer_ref();
    b.havoc(38, 1);
    nd::assume(b.len() >= 1);
    let m = b.len() - 1;
    let (i, k): (usize, usize) = (any(), any());
    nd::assume(i < m);
    // the class invariant at list i, at the cut and at the end
    let (s, e, p) = (b.pin(i), b.pin(i + 1), b.pin(m));
    let c = if k < m { b.pin(k) } else { p };
    let (Ok(s), Ok(e), Ok(c), Ok(p)): (Result<usize, _>, Result<usize, _>, Result<usize, _>, Result<usize, _>) = (b.at(i).try_into(), b.at(i + 1).try_into(), b.at(min(k, m)).try_into(), b.at(m).try_into()) else { nd::stop() };
    nd::assume(s <= e && e <= p && c <= p && p <= child.len);
    if i < k { nd::assume(e <= c) } else { nd::assume(c <= s) }
    o.truncate(k);
    let left = min(k, m);
    check!(o.len() == left, "min(k, length) lists remain");
    check!(o.view(i).is_some() == (i < left), "a list remains exactly when below k");
    let l = Watched { len: any(), watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    if then_append {
        nd::assume(c.checked_add(l.len).is_some_and(|x| O::try_from(x).is_ok()));
        o.extend(core::iter::once(l));
        let Some(v) = o.view(left) else { check!(false, "the appended list is readable"); return };
        check!(v.len() == l.len, "the appended list has its own length");
        if child.watch >= c && child.watch - c == l.watch && l.watch < l.len {
            check!(v.view(l.watch) == Some(l.val), "nothing of the dropped lists reappears");
        }
    }
    if i < left {
        let Some(v) = o.view(i) else { check!(false, "a remaining list is readable"); return };
        check!(v.len() == e - s, "a remaining list keeps its length");
        if s <= child.watch && child.watch < e {
            check!(v.view(child.watch - s) == Some(child.val), "a remaining list keeps its items");
        }
    }
}
fn flatten_any<const N: usize>() {
    let (m, k): (usize, usize) = (any(), any());
    let Some(len) = m.checked_mul(N) else { nd::stop() };
    nd::assume(len <= usize::MAX - N);
    let child = Watched { len, watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    let more: [u32; N] = any();
    let Ok(mut f) = Flatten::<Watched, N>::try_from_parts(child) else { check!(false, "a multiple of the width is accepted"); return };
    f.truncate(k);
    let left = min(k, m);
    check!(f.len() == left, "min(k, length) lists remain");
    check!(f.child_ref().len == left * N, "only complete groups remain");
    let w = child.watch;
    f.extend(core::iter::once(more));
    check!(f.len() == left + 1, "one more list");
    if w / N < left {
        let Some(v) = f.view(w / N) else { check!(false, "a remaining list is readable"); return };
        check!(v[w % N] == child.val, "a remaining list is unchanged");
    } else if w / N == left {
        let Some(v) = f.view(left) else { check!(false, "the appended list is readable"); return };
        check!(v[w % N] == more[w % N], "nothing of the dropped lists reappears");
    }
}
fn vec_any<const N: usize>() {
    let vals: [u32; N] = any();
    let (k, y): (usize, u32) = (any(), any());
    let mut v: Vec<u32> = vals.to_vec();
    CollectionRealloc::truncate(&mut v, k);
    let left = min(k, N);
    check!(v.len() == left, "min(k, length) values remain");
    v.extend(core::iter::once(y));
    let mut i = 0;
    while i < left {
        check!(v.view(i) == Some(vals[i]), "remaining values are unchanged");
        i += 1;
    }
    check!(v.view(left) == Some(y) && v.view(left + 1).is_none(), "nothing of the dropped values reappears");
}
fn validity_then<const N: usize>(stored: Option<(usize, usize)>, k: usize) {
    let vals: [u32; N] = any();
    let bytes: [u8; 3] = any();
    let y: u32 = any();
    let child = Av::from_fn(N, |i| vals[i]);
    let mut v = match stored {
        Some((offset, nbytes)) => {
            let b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(nbytes, |i| bytes[i]), N, offset).ok().expect("OB: fits");
            Validity::<Av<u32>, AvBuf>::try_from_parts(child, b).ok().expect("OB: lengths match")
        }
        None => Validity::<Av<u32>, AvBuf>::from_collection(child),
    };
    v.truncate(k);
    v.extend([None, Some(y)]);
    check!(v.len() == k + 2, "the new items follow the remaining ones");
    let mut i = 0;
    while i < k {
        let valid = match stored { Some((offset, _)) => spec::bit(&bytes, offset + i), None => true };
        check!(v.view(i) == Some(valid.then_some(vals[i])), "a remaining item is unchanged");
        i += 1;
    }
    check!(v.view(k) == Some(None) && v.view(k + 1) == Some(Some(y)) && v.view(k + 2).is_none(), "nothing of the dropped items reappears");
}

obligations! { "C11";
    proof c11_bitmap_any [2] "Bitmap::truncate: any buffer up to 2^40 bytes, any bits, offset, k, position" { bitmap_any() }
    proof c11_validity_stored [2] "Validity::truncate with bitmap: any values, any bitmap, any k, any position" { validity_any(true) }
    proof c11_validity_absent [2] "Validity::truncate without bitmap: any values, any k, any position" { validity_any(false) }
    proof c11_offsets_i32 [2] "Offsets::truncate: any lists with 32-bit offsets, any k, any list" { offsets_any::<i32>(false) }
    proof_deep c11_offsets_i64 [2] "Offsets::truncate: any lists with 64-bit offsets, any k, any list" { offsets_any::<i64>(false) }
    proof c11_offsets_then_i32 [3] "Offsets::truncate then append one list of any length: any lists with 32-bit offsets" { offsets_any::<i32>(true) }
    proof c11_flatten_1 [3] "Flatten::truncate then append, width 1: any child, any k" { flatten_any::<1>() }
    proof c11_flatten_2 [4] "Flatten::truncate then append, width 2: any child, any k" { flatten_any::<2>() }
    proof c11_flatten_3 [5] "Flatten::truncate then append, width 3: any child, any k" { flatten_any::<3>() }
    bounded c11_vec_4 [6] "Vec::truncate then append: 4 values, any k" { vec_any::<4>() }
    bounded c11_bitmap_then_a [20] "3 bytes, offset 0, 18 bits, truncate to 3, append 4" { bitmap_then::<3>(0, 18, 3, 4) }
    bounded c11_bitmap_then_b [20] "2 bytes, offset 5, 9 bits, truncate to 3, append 2 (byte boundary)" { bitmap_then::<2>(5, 9, 3, 2) }
    bounded c11_bitmap_then_c [20] "2 bytes, offset 5, 9 bits, truncate to 0, append 5" { bitmap_then::<2>(5, 9, 0, 5) }
    deep c11_validity_then_a [12] "3 nullable values, bitmap at offset 6, truncate to 1, append null and value" { validity_then::<3>(Some((6, 2)), 1) }
    bounded c11_validity_then_c [12] "2 nullable values, bitmap at offset 7, truncate to 1, append null and value" { validity_then::<2>(Some((7, 2)), 1) }
    bounded c11_validity_then_b [12] "3 nullable values, no bitmap, truncate to 2, append null and value" { validity_then::<3>(None, 2) }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_::*;
    pub fn cut(n: usize) -> usize {
        match pick(8) {
            0 => n,
            1 => n + 1,
            2 => usize::MAX - pick(3),
            3 => 0,
            4 => EXTREME[pick(6)].max(n),
            5 => n.saturating_sub(1),
            _ => pick(n + 1),
        }
    }
    pub fn history<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        for _ in 0..1 + pick(3) {
            let k = cut(m.len());
            c.truncate(k);
            m.truncate(k);
            reads(&c, &m);
            if pick(4) > 0 {
                append(&mut c, &mut m, items(if pick(6) == 0 { 60 } else { 12 }));
                reads(&c, &m);
            }
        }
        consume(c, &m);
    }
}

runs! { "C11";
    c11_run_a "histories of truncations and appends over sixty collection types" { crate::gen_::reseed(); use native::history; crate::growables!(history) }
    c11_run_b "histories of truncations and appends over sixty collection types (second stream)" { crate::gen_::reseed(); use native::history; crate::growables!(history) }
}
