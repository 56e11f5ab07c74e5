//! C07: any number of offsets.
use crate::{nd::any, store::*};
use narrow::{
    buffer::{BufferRef, SliceBuffer},
    collection::ChildRef,
    length::Length,
    loop_shim::{self as ghost, value},
    offset::{Offset, Offsets, OffsetsError},
};

fn offsets<O: Offset>() {
    let o = any_slice::<O>(30);
    let n = o.len();
    let data: usize = any();
    // an arbitrary position
    let i: usize = any();
    ghost::watch(o, i);
    let at = |k: usize| value(ghost::at(o, k));
    match Offsets::<Ident, O, SliceBuffer<'static>, Vec<usize>>::try_from_parts(Ident(data), o) {
        Ok(v) => {
            check!(n > 0 && at(0) == Some(0) && ghost::good(n), "accepted only when the offsets are valid");
            check!(at(n - 1) <= Some(data), "accepted only when the child is long enough");
            check!(v.len() + 1 == n && *v.child_ref() == Ident(data), "one list less than offsets, over the child");
            let (c, b) = v.into_parts();
            check!(c == Ident(data) && b.as_ptr() == o.as_ptr() && b.len() == n, "into_parts returns the parts");
            kani::cover!(n > 1000 && i > 10 && i < 900, "OBEND");
        }
        Err(OffsetsError::Empty) => check!(n == 0, "empty is reported for no offset"),
        Err(OffsetsError::NonZeroFirst { first }) => check!(n > 0 && first != 0 && at(0) == Some(first), "the first offset is reported"),
        Err(OffsetsError::Negative { index }) => {
            check!(index < n && at(index).is_none(), "the offset reported is negative");
            check!(index == 0 || at(0) == Some(0), "the first offset comes first");
            check!(ghost::good(index), "everything before the negative offset is valid");
            kani::cover!(index > 1000 && i > 10 && i < 900, "negative");
        }
        Err(OffsetsError::NonMonotonic { index }) => {
            check!(index > 0 && index < n && at(index).is_some() && at(index) < at(index - 1), "the offset reported decreases");
            check!(at(0) == Some(0) && ghost::good(index), "everything before the decrease is valid");
            kani::cover!(index > 1000 && i > 10 && i < 900, "decrease");
        }
        Err(OffsetsError::OutOfBounds { last, data: d }) => {
            check!(n > 0 && at(0) == Some(0) && ghost::good(n), "out of bounds only when everything else is right");
            check!(at(n - 1) == Some(last) && last > data && d == data, "the numbers reported");
        }
    }
}

#[kani::proof]
fn c07_loop_i32() {
    offsets::<i32>()
}
#[kani::proof]
fn c07_loop_i64() {
    offsets::<i64>()
}
