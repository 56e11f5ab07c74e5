//! C03: appending booleans keeps old bits and appends exactly the new ones.

use narrow::{
    bitmap::Bitmap,
    buffer::{Buffer, VecBuffer},
    collection::{Collection, CollectionAllocIn, CollectionRealloc},
    length::Length,
};

use crate::{nd, nd::any, spec, store::*};

/// Appends `M` items to an arbitrary bitmap: any buffer length, contents,
/// bit length, bit offset (stale bits and spare bytes included).
fn append_any<const M: usize>(fallible: bool) {
    let bytes = Sym::<u8>::any(40, 2);
    let (bits, offset): (usize, usize) = (any(), any());
    let Ok(mut b) = Bitmap::<SymBuf>::try_from_parts(bytes, bits, offset) else { return };
    let w: usize = any();
    let old = b.view(w);
    let data: u64 = any();
    let src = Bits { bits: data, i: 0, n: M };
    if fallible {
        check!(b.try_extend(src.map(|x| x.0 == 1)).is_ok(), "an append with room succeeds");
    } else {
        b.extend(src);
    }
    check!(b.len() == bits + M, "len grows by the number of items");
    check!(b.bit_offset() == offset, "the offset is kept");
    if w < bits {
        check!(b.view(w) == old, "every earlier position is unchanged");
    }
    let k = nd::below(M);
    check!(b.view(bits + k) == Some((data >> k) & 1 == 1), "new position k reads item k");
    check!(b.view(bits + M).is_none(), "nothing beyond the new end");
}

fn judge<S: Buffer>(b: &Bitmap<S>, old: impl Fn(usize) -> bool, bits: usize, data: u64, m: usize) {
    check!(b.len() == bits + m, "len grows by the number of items");
    let mut i = 0;
    while i < bits {
        check!(b.view(i) == Some(old(i)), "every earlier position is unchanged");
        i += 1;
    }
    let mut k = 0;
    while k < m {
        check!(b.view(bits + k) == Some((data >> k) & 1 == 1), "new position k reads item k");
        k += 1;
    }
    check!(b.view(bits + m).is_none(), "nothing beyond the new end");
}

/// Appends `m` arbitrary items at a fixed shape over arbitrary bytes.
fn append_shape<const N: usize>(offset: usize, bits: usize, m: usize, fallible: Option<u64>) {
    let bytes: [u8; N] = any();
    let data: u64 = fallible.unwrap_or_else(any);
    let mut b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(N, |i| bytes[i]), bits, offset).ok().expect("OB: fits");
    if fallible.is_some() {
        check!(b.try_extend(Bools { bits: data, i: 0, n: m }).is_ok(), "an append with room succeeds");
    } else {
        b.extend(Bits { bits: data, i: 0, n: m });
    }
    check!(b.bit_offset() == offset, "the offset is kept");
    judge(&b, |i| spec::bit(&bytes, offset + i), bits, data, m);
    // and again, so that the state left behind is itself appendable
    let more: u64 = any();
    b.extend(Bits { bits: more, i: 0, n: 3 });
    judge(&b, |i| if i < bits { spec::bit(&bytes, offset + i) } else { (data >> (i - bits)) & 1 == 1 }, bits + m, more, 3);
}

fn collected<S: Buffer>(b: Bitmap<S>, data: u64, m: usize) {
    check!(b.len() == m && b.bit_offset() == 0, "collected length");
    let (bytes, bits, offset) = b.into_parts();
    let bytes: &[u8] = core::borrow::Borrow::borrow(&bytes);
    check!(bits == m && offset == 0, "collected parts");
    check!(bytes.len() == spec::bytes_for(m), "exactly the bytes needed");
    let mut i = 0;
    while i < bytes.len() * 8 {
        check!(spec::bit(bytes, i) == (i < m && (data >> i) & 1 == 1), "item i at bit i, unused bits zero");
        i += 1;
    }
}
fn collect_shape(m: usize) {
    let data: u64 = any();
    collected(Bits { bits: data, i: 0, n: m }.collect::<Bitmap<AvBuf>>(), data, m);
}
fn collect_in_shape(m: usize) {
    collect_in_data(m, 0b1_0110_1001);
    collect_in_data(m, 0b0_1001_0110);
}
fn collect_in_data(m: usize, data: u64) {
    collected(Bitmap::<AvBuf>::from_iter_in(Bools { bits: data, i: 0, n: m }, ()), data, m);
    match Bitmap::<AvBuf>::try_from_iter_in(Bools { bits: data, i: 0, n: m }, ()) {
        Ok(b) => collected(b, data, m),
        Err(_) => check!(false, "collecting with room succeeds"),
    }
}

/// A source that resumes after its first end-of-sequence.
struct Resume {
    bits: u64,
    i: usize,
    stop: usize,
    stopped: bool,
}
impl Iterator for Resume {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.i == self.stop && !self.stopped {
            self.stopped = true;
            return None;
        }
        if self.i >= self.stop + 20 {
            return None;
        }
        self.i += 1;
        Some((self.bits >> ((self.i - 1) & 63)) & 1 == 1)
    }
}
/// As [`Resume`], yielding items without a niche.
struct ResumeBit(Resume);
impl Iterator for ResumeBit {
    type Item = Bit;
    fn next(&mut self) -> Option<Bit> {
        let r = &mut self.0;
        if r.i == r.stop && !r.stopped {
            r.stopped = true;
            return None;
        }
        if r.i >= r.stop + 12 {
            return None;
        }
        r.i += 1;
        Some(Bit((r.bits >> (r.i - 1)) as u8 & 1))
    }
}
fn resume_shape(m: usize) {
    let data: u64 = any();
    let src = || ResumeBit(Resume { bits: data, i: 0, stop: m, stopped: false });
    collected(src().collect::<Bitmap<AvBuf>>(), data, m);
    let mut b = Bitmap::<AvBuf>::default();
    b.extend(src());
    judge(&b, |_| false, 0, data, m);
}

obligations! { "C03";
    proof c03_extend_any_1 [9] "Bitmap::extend of one item: every buffer up to 2^40 bytes, every content, bits, offset, item, observed position" { append_any::<1>(false) }
    proof_deep c03_try_extend_any_1 [9] "Bitmap::try_extend of one item, arbitrary state" { append_any::<1>(true) }
    proof_deep c03_extend_any_2 [9] "Bitmap::extend of two items, arbitrary state" { append_any::<2>(false) }
    bounded c03_shape_empty [20] "extend an empty bitmap by 9, any items; then 3 more" { append_shape::<0>(0, 0, 9, None) }
    bounded c03_shape_inside [20] "1 byte, 3 bits, append 4 inside the byte (stale bits arbitrary); then 3 more" { append_shape::<1>(0, 3, 4, None) }
    bounded c03_shape_fill [20] "1 byte, 5 bits, append 3 to the byte boundary; then 3 more" { append_shape::<1>(0, 5, 3, None) }
    bounded c03_shape_cross [20] "2 bytes, offset 3, 4 bits, append 6 over a spare byte; then 3 more" { append_shape::<2>(3, 4, 6, None) }
    bounded c03_shape_spare [20] "3 bytes, offset 1, 5 bits, append 4 with spare bytes; then 3 more" { append_shape::<3>(1, 5, 4, None) }
    bounded c03_shape_aligned [24] "2 bytes, 8 bits, append 9 over a spare byte; then 3 more" { append_shape::<2>(0, 8, 9, None) }
    bounded c03_shape_offset_end [20] "1 byte, offset 8, 0 bits, append 3; then 3 more" { append_shape::<1>(8, 0, 3, None) }
    bounded c03_try_inside [20] "fallible: 1 byte, offset 2, 2 bits, append 101 and 010; then any 3 more" { append_shape::<1>(2, 2, 3, Some(0b101)); append_shape::<1>(2, 2, 3, Some(0b010)) }
    bounded c03_try_cross [20] "fallible: 2 bytes, offset 3, 4 bits, append 6 (two patterns); then any 3 more" { append_shape::<2>(3, 4, 6, Some(0b100101)); append_shape::<2>(3, 4, 6, Some(0b011010)) }
    bounded c03_try_aligned [24] "fallible: 2 bytes, 8 bits, append 9 (two patterns); then any 3 more" { append_shape::<2>(0, 8, 9, Some(0b1_0110_1001)); append_shape::<2>(0, 8, 9, Some(0b0_1001_0110)) }
    bounded c03_collect_0 [12] "collect 0 items" { collect_shape(0); collect_in_shape(0) }
    bounded c03_collect_5 [12] "collect 5 items, every value" { collect_shape(5); collect_in_shape(5) }
    bounded c03_collect_8 [12] "collect 8 items, every value" { collect_shape(8); collect_in_shape(8) }
    bounded c03_collect_9 [18] "collect 9 items, every value" { collect_shape(9); collect_in_shape(9) }
    bounded c03_resume_3 [20] "a source resuming after 3 items" { resume_shape(3) }
}

#[cfg(not(kani))]
fn wide(m_max: usize) {
    let nbytes = nd::below(24);
    let bytes: Vec<u8> = (0..nbytes).map(|_| any()).collect();
    let offset = nd::below(nbytes * 8 + 1);
    let bits = nd::below(nbytes * 8 - offset + 1);
    let mut model: Vec<bool> = (0..bits).map(|i| spec::bit(&bytes, offset + i)).collect();
    let mut b = Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), bits, offset).ok().expect("OB: fits");
    let mut c = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(nbytes, |i| bytes[i]), bits, offset).ok().expect("OB: fits");
    for _ in 0..nd::below(4) + 1 {
        let items: Vec<bool> = (0..nd::below(m_max)).map(|_| any()).collect();
        let lie = nd::below(3);
        let src = || Hinted { v: items.clone().into_iter(), lie };
        match nd::below(3) {
            0 => {
                b.extend(src());
                c.extend(src());
            }
            1 => {
                check!(b.try_extend(src()).is_ok(), "fallible append succeeds");
                check!(c.try_extend(src()).is_ok(), "fallible append succeeds");
            }
            _ => {
                b.extend(items.iter());
                c.extend(items.iter());
            }
        }
        model.extend(items.iter());
        if any() {
            let k = nd::below(model.len() + 3);
            b.truncate(k);
            c.truncate(k);
            model.truncate(k);
        }
        same(&b, &model);
        same(&c, &model);
        check!(b.bit_offset() == offset, "the offset is kept");
    }
}
#[cfg(not(kani))]
fn same<S: Buffer>(b: &Bitmap<S>, model: &[bool]) {
    check!(b.len() == model.len(), "length after appending");
    check!(b.iter_views().eq(model.iter().copied()), "iteration gives the old then the new items");
    for (i, x) in model.iter().enumerate() {
        check!(b.view(i) == Some(*x), "position i reads the appended item");
    }
    check!(b.view(model.len()).is_none(), "nothing beyond the end");
}

runs! { "C03";
    c03_run_append "histories of appends and truncations from arbitrary raw parts, two storages" { wide(40) }
    c03_run_append_long "appends of up to 2200 items" { wide(2200) }
    c03_run_collect "collect by every constructor, sources announcing exact, low and no bounds, up to 300 items" {
        let items: Vec<bool> = (0..nd::below(300)).map(|_| any()).collect();
        let lie = nd::below(3);
        let src = || Hinted { v: items.clone().into_iter(), lie };
        macro_rules! c { ($b:expr) => {{
            let b = $b;
            check!(b.len() == items.len() && b.bit_offset() == 0, "collected length");
            same(&b, &items);
            let (bytes, _, _) = b.into_parts();
            let bytes: &[u8] = core::borrow::Borrow::borrow(&bytes);
            check!(bytes.len() == spec::bytes_for(items.len()), "exactly the bytes needed");
            check!((0..bytes.len() * 8).all(|i| spec::bit(bytes, i) == items.get(i).copied().unwrap_or(false)), "item i at bit i, unused bits zero");
        }} }
        c!(src().collect::<Bitmap<VecBuffer>>());
        c!(items.iter().collect::<Bitmap<VecBuffer>>());
        c!(src().collect::<Bitmap<narrow::buffer::BoxBuffer>>());
        c!(src().collect::<Bitmap<AvBuf>>());
        c!(Bitmap::<AvBuf>::from_iter_in(src(), ()));
        c!(Bitmap::<AvBuf>::try_from_iter_in(src(), ()).ok().expect("OB: room"));
        c!(Bitmap::<VecBuffer>::from_iter_in(src(), Default::default()));
        c!(Bitmap::<VecBuffer>::try_from_iter_in(src(), Default::default()).ok().expect("OB: room"));
    }
    c03_run_resume "resumable sources, every stop up to 40" {
        let m = nd::below(41);
        let data: u64 = any();
        let src = || Resume { bits: data, i: 0, stop: m, stopped: false };
        let model: Vec<bool> = (0..m).map(|i| (data >> (i & 63)) & 1 == 1).collect();
        same(&src().collect::<Bitmap<VecBuffer>>(), &model);
        same(&Bitmap::<VecBuffer>::from_iter_in(src(), Default::default()), &model);
        same(&Bitmap::<VecBuffer>::try_from_iter_in(src(), Default::default()).ok().expect("OB: room"), &model);
        let pre = nd::below(20);
        let mut b = (0..pre).map(|_| true).collect::<Bitmap>();
        b.extend(src());
        let mut want = vec![true; pre];
        want.extend(model.iter());
        same(&b, &want);
        check!(b.try_extend(src()).is_ok(), "fallible append");
        want.extend(model.iter());
        same(&b, &want);
    }
}
