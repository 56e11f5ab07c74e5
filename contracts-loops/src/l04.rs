//! C04: counting, for any number of bytes.
use crate::{nd::any, store::*};
use narrow::{
    bitmap::{Bitmap, ValidityBitmap},
    buffer::SliceBuffer,
    length::Length,
    loop_shim as ghost,
    validity::Validity,
};

type V = Validity<Ident, SliceBuffer<'static>>;

/// Any validity bitmap over any buffer, and the ghost sums of its set bits.
fn any_validity() -> Option<(V, usize, usize, &'static [usize])> {
    let bytes = any_slice::<u8>(32);
    let (bits, offset): (usize, usize) = (any(), any());
    let b = Bitmap::<SliceBuffer<'static>>::try_from_parts(bytes, bits, offset).ok()?;
    let v = V::try_from_parts(Ident(bits), b).ok()?;
    let sums = any_slice_len::<usize>(bytes.len() + 1);
    kani::assume(sums[0] == 0);
    unsafe {
        ghost::BASE = bytes.as_ptr();
        ghost::OFFSET = offset;
        ghost::BITS = bits;
        ghost::SUM = sums.as_ptr();
        ghost::FROM = 0;
        ghost::COUNT = 0;
    }
    Some((v, bits, offset, sums))
}
/// The number of set bits of the bytes folded, which hold every counted bit.
fn set_bits(bits: usize, offset: usize, sums: &[usize]) -> usize {
    let (from, count) = unsafe { (ghost::FROM, ghost::COUNT) };
    check!(bits == 0 || 8 * from <= offset && offset + bits <= 8 * (from + count), "every validity bit is counted");
    let set = sums[count];
    kani::cover!(bits > 1000 && set > 500 && set < bits, "OBEND");
    set
}

#[kani::proof]
fn c04_loop_null_count() {
    let Some((v, bits, offset, sums)) = any_validity() else { return };
    let nulls = v.null_count();
    let set = set_bits(bits, offset, sums);
    check!(set <= bits && nulls == bits - set, "null_count is the number of cleared bits");
}
#[kani::proof]
fn c04_loop_valid_count() {
    let Some((v, bits, offset, sums)) = any_validity() else { return };
    let valid = v.valid_count();
    check!(valid == set_bits(bits, offset, sums), "valid_count is the number of set bits");
}
#[kani::proof]
fn c04_loop_all_null() {
    let Some((v, bits, offset, sums)) = any_validity() else { return };
    let r = v.all_null();
    check!(r == (set_bits(bits, offset, sums) == 0), "all_null agrees with the counts");
}
#[kani::proof]
fn c04_loop_any_valid() {
    let Some((v, bits, offset, sums)) = any_validity() else { return };
    let r = v.any_valid();
    check!(r == (set_bits(bits, offset, sums) != 0), "any_valid agrees with the counts");
}
#[kani::proof]
fn c04_loop_all_valid() {
    let Some((v, bits, offset, sums)) = any_validity() else { return };
    let r = v.all_valid();
    check!(r == (set_bits(bits, offset, sums) == bits), "all_valid agrees with the counts");
}
