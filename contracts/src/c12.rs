//! C12: a failed fallible append changes nothing.

use narrow::{
    bitmap::Bitmap,
    buffer::{Buffer, BufferRef, VecBuffer},
    collection::{AllocError, ChildRef, Collection, CollectionAllocIn, CollectionRealloc, flatten::Flatten},
    length::Length,
    offset::{Offset, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

/// An arbitrary bitmap whose storage grants nothing, one item.
fn bitmap_fail(item: bool) {
    let bytes = Sym::<u8>::any(40, 1);
    bytes.ok.set(false);
    let (bits, offset, w): (usize, usize, usize) = (any(), any(), any());
    let Ok(mut b) = Bitmap::<SymBuf>::try_from_parts(bytes, bits, offset) else { return };
    let old = b.view(w);
    let r = b.try_extend([item]);
    if r.is_err() {
        check!(b.len() == bits, "a failed append keeps the length");
        check!(b.view(w) == old, "a failed append keeps every position");
    } else {
        check!(b.len() == bits + 1, "a successful append adds the item");
        check!(b.view(bits) == Some(item), "a successful append stores the item");
    }
}
/// Any starting state, `m` items, the storage growth number `grant` fails,
/// then a successful append.
fn bitmap_shape<const N: usize>(offset: usize, bits: usize, data: u64, m: usize, grant: usize) {
    let bytes: [u8; N] = any();
    let mut b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(N, |i| bytes[i]), bits, offset).ok().expect("OB: fits");
    grants::set(grant);
    let r = b.try_extend(Bools { bits: data, i: 0, n: m });
    grants::set(usize::MAX);
    let more: u64 = any();
    let kept = if r.is_err() { bits } else { bits + m };
    check!(b.len() == kept, "a failed append keeps the length");
    b.extend(Bits { bits: more, i: 0, n: 3 });
    check!(b.len() == kept + 3, "a later append adds its items");
    let mut i = 0;
    while i < bits {
        check!(b.view(i) == Some(spec::bit(&bytes, offset + i)), "a failed append keeps every position");
        i += 1;
    }
    let mut k = 0;
    while k < 3 {
        check!(b.view(kept + k) == Some((more >> k) & 1 == 1), "a later append reads back exactly");
        k += 1;
    }
}
/// Nullable values over any values and any bitmap; either buffer may refuse.
fn validity_fail() {
    let (n, offset): (usize, usize) = (any(), any());
    let child = Watched { len: n, watch: any(), val: any(), ok: any(), reserved: 0, eager: true };
    let bytes = Sym::<u8>::any(40, 1);
    bytes.ok.set(any());
    let Ok(b) = Bitmap::<SymBuf>::try_from_parts(bytes, n, offset) else { nd::stop() };
    let mut v = Validity::<Watched, SymBuf>::try_from_parts(child, b).ok().expect("OB: lengths match");
    let old = v.view(child.watch);
    let r = v.try_extend([Some(7)]);
    if r.is_err() {
        check!(v.len() == n && v.child_ref().len == n, "a failed append keeps the length and the alignment");
        if child.watch < n { check!(v.view(child.watch) == old, "a failed append keeps every position") }
    } else {
        check!(v.len() == n + 1, "a successful append adds the item");
    }
}
/// As above, only the values refuse.
fn validity_fail_child() {
    let (n, offset): (usize, usize) = (any(), any());
    let child = Watched { len: n, watch: any(), val: any(), ok: false, reserved: 0, eager: true };
    let Ok(b) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 1), n, offset) else { nd::stop() };
    let mut v = Validity::<Watched, SymBuf>::try_from_parts(child, b).ok().expect("OB: lengths match");
    let old = v.view(child.watch);
    check!(v.try_extend([Some(7), None]).is_err(), "the failure is reported");
    check!(v.len() == n && v.child_ref().len == n, "a failed append keeps the length and the alignment");
    check!(v.view(child.watch) == old, "a failed append keeps every position");
}
fn validity_shape<const N: usize>(stored: Option<(usize, usize)>, grant: usize) {
    let vals: [u32; N] = any();
    let bytes: [u8; 3] = any();
    let child = Av::from_fn(N, |i| vals[i]);
    let mut v = match stored {
        Some((offset, nbytes)) => {
            let b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(nbytes, |i| bytes[i]), N, offset).ok().expect("OB: fits");
            Validity::<Av<u32>, AvBuf>::try_from_parts(child, b).ok().expect("OB: lengths match")
        }
        None => Validity::<Av<u32>, AvBuf>::from_collection(child),
    };
    grants::set(grant);
    let x: u32 = any();
    let r = v.try_extend([Some(x), None, Some(x)]);
    grants::set(usize::MAX);
    let kept = if r.is_err() { N } else { N + 3 };
    check!(v.len() == kept, "a failed append keeps the length");
    let y: u32 = any();
    v.extend([None, Some(y)]);
    let mut i = 0;
    while i < N {
        let valid = match stored { Some((offset, _)) => spec::bit(&bytes, offset + i), None => true };
        check!(v.view(i) == Some(valid.then_some(vals[i])), "a failed append keeps every position");
        i += 1;
    }
    check!(v.view(kept) == Some(None) && v.view(kept + 1) == Some(Some(y)) && v.view(kept + 2).is_none(), "a later append reads back exactly");
}
/// Any lists; the child or the offsets refuse, or the total does not fit;
/// then one more list of any length.
fn offsets_fail<O: Offset + nd::Any>() {
    let child = Watched { len: any(), watch: any(), val: any(), ok: any(), reserved: 0, eager: false };
    let b = Sym::<O>::exact(1, 0);
    b.set(0, O::default());
    let mut o: Offsets<Watched, O, SymBuf, Watched> = Offsets::try_from_parts(child, b).ok().expect("OB: valid offsets");
    let b: &Sym<O> = o.buffer_ref();
    b.havoc(38, 1);
    b.ok.set(any());
    nd::assume(b.len() >= 1);
    let m = b.len() - 1;
    let i: usize = any();
    nd::assume(i < m);
    let (s, e, p) = (b.pin(i), b.pin(i + 1), b.pin(m));
    let e = if i + 1 == m { p } else { e };
    let (Ok(s), Ok(e), Ok(p)): (Result<usize, _>, Result<usize, _>, Result<usize, _>) = (s.try_into(), e.try_into(), p.try_into()) else { nd::stop() };
    nd::assume(s <= e && e <= p && p <= child.len);
    let l = Watched { len: any(), watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    let r = o.try_extend([l]);
    nd::assume(r.is_err());
    check!(o.len() == m, "a failed append keeps the number of lists");
    let Some(v) = o.view(i) else { check!(false, "every list stays readable"); return };
    check!(v.len() == e - s, "a failed append keeps every list's length");
    if s <= child.watch && child.watch < e {
        check!(v.view(child.watch - s) == Some(child.val), "a failed append keeps every list's items");
    }
    check!(o.view(m).is_none(), "nothing was added");
}
/// Real children, growth number `grant` fails.
fn offsets_shape(grant: usize) {
    let vals: [u32; 4] = any();
    let more: [u32; 3] = any();
    let mut o = Offsets::<Av<u32>, i32, AvBuf, Vec<u32>>::try_from_parts(Av::from_fn(4, |i| vals[i]), [0, 1, 3].into_iter().collect()).ok().expect("OB: valid offsets");
    grants::set(grant);
    let r = o.try_extend([vec![more[0]], vec![], vec![more[1], more[2]]]);
    grants::set(usize::MAX);
    let kept = if r.is_err() { 2 } else { 5 };
    check!(o.len() == kept, "a failed append keeps the number of lists");
    o.extend([vec![more[2]]]);
    let (Some(a), Some(b), Some(c)) = (o.view(0), o.view(1), o.view(kept)) else { check!(false, "readable"); return };
    check!(a.len() == 1 && a.view(0) == Some(vals[0]), "a failed append keeps the first list");
    check!(b.len() == 2 && b.view(0) == Some(vals[1]) && b.view(1) == Some(vals[2]), "a failed append keeps the second list");
    check!(c.len() == 1 && c.view(0) == Some(more[2]), "a later append reads back exactly");
}
fn flatten_fail<const N: usize>() {
    let m: usize = any();
    let Some(len) = m.checked_mul(N) else { nd::stop() };
    let child = Watched { len, watch: any(), val: any(), ok: any(), reserved: 0, eager: false };
    let items: [u32; N] = any();
    let Ok(mut f) = Flatten::<Watched, N>::try_from_parts(child) else { check!(false, "a multiple of the width is accepted"); return };
    nd::assume(len <= usize::MAX - N);
    let r = f.try_extend([items]);
    check!(r.is_ok() == child.ok, "a refusal is reported");
    check!(f.len() == if child.ok { m + 1 } else { m }, "a failed append keeps the number of lists");
    check!(f.child_ref().len == f.len() * N, "only complete groups are kept");
    if child.watch / N < m {
        let Some(v) = f.view(child.watch / N) else { check!(false, "every list stays readable"); return };
        check!(v[child.watch % N] == child.val, "a failed append keeps every list");
    }
}
fn flatten_shape<const N: usize>(grant: usize) {
    let vals: [[u32; N]; 2] = any();
    let more: [[u32; N]; 2] = any();
    let mut f = Flatten::<Av<u32>, N>::try_from_parts(Av::from_fn(2 * N, |i| vals[i / N][i % N])).ok().expect("OB: multiple");
    grants::set(grant);
    let r = f.try_extend(more);
    grants::set(usize::MAX);
    let kept = if r.is_err() { 2 } else { 4 };
    check!(f.len() == kept, "a failed append keeps the number of lists");
    f.extend([more[1]]);
    check!(f.len() == kept + 1, "a later append adds its list");
    let mut k = 0;
    while k < N {
        check!(f.view(0).is_some_and(|v| v[k] == vals[0][k]) && f.view(1).is_some_and(|v| v[k] == vals[1][k]), "a failed append keeps every list");
        check!(f.view(kept).is_some_and(|v| v[k] == more[1][k]), "a later append reads back exactly");
        k += 1;
    }
}
/// Announces a lower bound no storage can hold: the first reservation fails.
struct Endless(u32);
impl Iterator for Endless {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        Some(self.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (usize::MAX, None)
    }
}
fn vec_fail<const N: usize>() {
    let vals: [u32; N] = any();
    let mut v: Vec<u32> = vals.to_vec();
    check!(v.try_extend(Endless(any())).is_err(), "a reservation beyond memory is refused");
    check!(Length::len(&v) == N, "a failed append keeps the length");
    let mut i = 0;
    while i < N {
        check!(v.view(i) == Some(vals[i]), "a failed append keeps every value");
        i += 1;
    }
}

obligations! { "C12";
    proof c12_bitmap_true [9] "Bitmap::try_extend of a set bit, storage refusing: any buffer up to 2^40 bytes, any bits, offset, position" { bitmap_fail(true) }
    proof c12_bitmap_false [9] "Bitmap::try_extend of a cleared bit, storage refusing: any buffer up to 2^40 bytes, any bits, offset, position" { bitmap_fail(false) }
    proof_deep c12_validity_any [9] "Validity::try_extend of one item: any values, any bitmap, values and bitmap each refusing or not" { validity_fail() }
    proof c12_validity_child [4] "Validity::try_extend of two items, values refusing: any values, any bitmap, any position" { validity_fail_child() }
    proof c12_offsets_i32 [3] "Offsets::try_extend: any lists, one list of any length, child or offsets refusing or total too large, 32-bit" { offsets_fail::<i32>() }
    proof_deep c12_offsets_i64 [3] "Offsets::try_extend: any lists, one list of any length, child or offsets refusing or total too large, 64-bit" { offsets_fail::<i64>() }
    proof c12_flatten_1 [4] "Flatten::try_extend width 1: any child, refusing or not" { flatten_fail::<1>() }
    proof c12_flatten_2 [6] "Flatten::try_extend width 2: any child, refusing or not" { flatten_fail::<2>() }
    bounded c12_vec_3 [5] "Vec::try_extend: 3 values, refused reservation" { vec_fail::<3>() }
    bounded c12_bitmap_a0 [20] "1 byte, offset 1, 3 bits, append 11, first growth refused; then any 3" { bitmap_shape::<1>(1, 3, 0b101_1010_0110, 11, 0) }
    bounded c12_bitmap_a1 [20] "1 byte, offset 1, 3 bits, append 14, second growth refused; then any 3" { bitmap_shape::<1>(1, 3, 0b01_0110_1010_0110, 14, 1) }
    bounded c12_bitmap_b0 [20] "2 bytes, offset 3, 4 bits, append 14 over a spare byte, first growth refused; then any 3" { bitmap_shape::<2>(3, 4, 0b10_1101_0110_1001, 14, 0) }
    bounded c12_bitmap_c0 [20] "1 byte, 8 bits, append 9, first growth refused; then any 3" { bitmap_shape::<1>(0, 8, 0b1_0110_1001, 9, 0) }
    bounded c12_validity_a0 [12] "2 values, bitmap at offset 7, append 3, first growth refused" { validity_shape::<2>(Some((7, 2)), 0) }
    bounded c12_validity_a2 [12] "2 values, bitmap at offset 7, append 3, third growth refused" { validity_shape::<2>(Some((7, 2)), 2) }
    bounded c12_validity_b0 [12] "2 values, no bitmap, append 3, first growth refused" { validity_shape::<2>(None, 0) }
    bounded c12_validity_b2 [12] "2 values, no bitmap, append 3, third growth refused" { validity_shape::<2>(None, 2) }
    deep c12_validity_c [12] "1 value, 1 spare byte, append 3, second growth refused" { validity_shape::<1>(Some((6, 2)), 1) }
    bounded c12_offsets_g0 [9] "2 lists and a spare child item, append 3, growth 1 refused" { offsets_shape(0) }
    bounded c12_offsets_g1 [9] "2 lists and a spare child item, append 3, growth 2 refused" { offsets_shape(1) }
    deep c12_offsets_g2 [9] "2 lists and a spare child item, append 3, growth 3 refused" { offsets_shape(2) }
    bounded c12_offsets_g3 [9] "2 lists and a spare child item, append 3, growth 4 refused" { offsets_shape(3) }
    deep c12_offsets_g4 [9] "2 lists and a spare child item, append 3, growth 5 refused" { offsets_shape(4) }
    bounded c12_flatten_g [8] "2 lists of width 3, append 2, any growth refused" { let g = nd::below(3); if g == 0 { flatten_shape::<3>(0) } else if g == 1 { flatten_shape::<3>(2) } else { flatten_shape::<3>(4) } }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::{fail, gen_::*};
    pub fn batch<T: Gen>() -> Vec<T> {
        items(match pick(8) { 0 => 160, 1 => 70, _ => 20 })
    }
    /// Refusals of the stand-in storage at any growth, or of the real allocator.
    pub fn history<C: CollectionRealloc<Alloc = ()> + Start>(real: bool)
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        for _ in 0..1 + pick(3) {
            let add: Vec<C::Owned> = batch();
            let src = Hinted { v: add.clone().into_iter(), lie: pick(3) };
            let n = match pick(5) { 0 => pick(200), 1 => pick(add.len() + 2), _ => pick(8) };
            let r = if real {
                // growth starts from a tight buffer
                fail::limited(n, || c.try_extend(src))
            } else {
                grants::set(n);
                let r = c.try_extend(src);
                grants::set(usize::MAX);
                r
            };
            if r.is_ok() {
                m.extend(add);
            }
            reads(&c, &m);
            if coin() {
                append(&mut c, &mut m, items(14));
                reads(&c, &m);
            } else if pick(3) == 0 {
                let k = pick(m.len() + 1);
                c.truncate(k);
                m.truncate(k);
            }
        }
        consume(c, &m);
    }
    pub fn stand_in<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        history::<C>(false)
    }
    pub fn real<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        history::<C>(true)
    }
    /// Announces more items than any storage holds.
    struct Announces<T>(Vec<T>, usize);
    impl<T: Clone> Iterator for Announces<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.1 += 1;
            Some(self.0[self.1 % self.0.len()].clone())
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (usize::MAX, None)
        }
    }
    pub fn huge<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        // an endless source: the storage must refuse at some point
        grants::set(pick(200));
        let src = Announces((0..1 + pick(5)).map(|_| C::Owned::gen_()).collect(), 0);
        let r = fail::limited(pick(40), || c.try_extend(src));
        grants::set(usize::MAX);
        check!(r.is_err(), "an endless append is refused");
        reads(&c, &m);
        append(&mut c, &mut m, items(14));
        reads(&c, &m);
    }
}

runs! { "C12";
    c12_run_a "sixty collection types: appends with storage refused at any growth, later appends" { crate::gen_::reseed(); use native::stand_in; crate::growables!(stand_in) }
    c12_run_b "sixty collection types: appends with storage refused at any growth, later appends (second stream)" { crate::gen_::reseed(); use native::stand_in; crate::growables!(stand_in) }
    c12_run_real_iso "sixty collection types: the real allocator refuses any allocation during the append" { crate::gen_::reseed(); use native::real; crate::growables!(real) }
    c12_run_huge_iso "sources announcing more than memory holds" { crate::gen_::reseed(); use native::huge; crate::one_of!(huge; Vec<u32>, Vec<u64>, Flatten<Vec<u32>, 3>, Flatten<Vec<u8>, 1>, Av<u32>, Flatten<Av<u32>, 2>, narrow::array::Array<u32>, narrow::array::Array<[u64; 2]>) }
}
