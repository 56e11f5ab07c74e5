//! C17: exported structures describe exactly the array, without copying.

use core::{borrow::Borrow, mem::ManuallyDrop};

use narrow::{
    array::Array,
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{ArrayBuffer, Buffer, BufferRef},
    collection::{ChildRef, Collection, flatten::Flatten},
    fixed_size::FixedSize,
    layout::{boolean::Boolean, fixed_size_list::FixedSizeList, fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList},
    length::Length,
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};
use narrow_ffi::{ArrowArray, ArrowSchema, ArrowType, Export, ExportError};

use crate::{ffi::*, nd, nd::any, spec, store::*};

/// One level of the exported schema.
fn schema_level(s: &RawSchema, format: &[u8], flags: i64, children: i64) {
    check!(is_str(s.format, format), "the format is the type's");
    check!(s.flags == flags, "the nullable flag, and no other, is the type's");
    check!(is_str(s.name, b"\0"), "the name is empty");
    check!(s.metadata.is_null(), "no metadata");
    check!(s.n_children == children && s.children.is_null() == (children == 0), "child schemas are counted and given");
    check!(s.dictionary.is_null(), "no dictionary schema");
    check!(s.release.is_some(), "the schema is live");
}
/// One level of the exported array.
fn array_level(a: &RawArray, length: usize, nulls: usize, buffers: i64, children: i64) {
    check!(usize::try_from(a.length) == Ok(length), "the length is the array's");
    check!(usize::try_from(a.null_count) == Ok(nulls), "the null count is the array's");
    check!(a.offset == 0, "the offset is zero");
    check!(a.n_buffers == buffers && !a.buffers.is_null(), "buffers are counted and given");
    check!(a.n_children == children && a.children.is_null() == (children == 0), "children are counted and given");
    check!(a.dictionary.is_null(), "no dictionary");
    check!(a.release.is_some(), "the array is live");
}
/// The structures are kept: releasing is the matter of C20.
fn kept(r: Result<(ArrowArray, ArrowSchema), ExportError>) -> Result<(ManuallyDrop<ArrowArray>, ManuallyDrop<ArrowSchema>), ExportError> {
    match r {
        Ok((a, s)) => Ok((ManuallyDrop::new(a), ManuallyDrop::new(s))),
        Err(e) => Err(e),
    }
}
fn bit_buffer(b: &Sym<u8>) -> *const u8 {
    b.sl().as_ptr()
}
type Bm = Bitmap<SymBuf>;
fn any_bitmap(bits: usize, offset: usize) -> Option<Bm> {
    Bm::try_from_parts(Sym::any(38, 0), bits, offset).ok()
}

fn primitive<T: AnyItem + ArrowType>(format: &[u8])
where
    T: narrow::layout::ArrayItem<Memory<SymBuf> = FixedSizePrimitive<T, NonNullable, SymBuf>>,
{
    let v = Sym::<T>::any(36, 0);
    let (n, p) = (v.len(), v.sl().as_ptr());
    let a: Array<T, SymBuf> = Array::from_buffer(FixedSizePrimitive::from_buffer(v));
    let (a, s) = kept(a.export()).ok().expect("OB: no offset, no rejection");
    schema_level(schema(&s), format, 0, 0);
    array_level(array(&a), n, 0, 2, 0);
    check!(buffer(array(&a), 0).is_null(), "no validity buffer");
    check!(buffer(array(&a), 1) == p.cast(), "the values are the array's memory");
}
/// Nullable values: without a bitmap, or with an arbitrary one that is not at
/// the start of a byte (its nulls are not counted: the array is rejected).
fn nullable_primitive() {
    let v = Sym::<i32>::any(36, 0);
    let (n, p) = (v.len(), v.sl().as_ptr());
    if any::<bool>() {
        let a: Array<Option<i32>, SymBuf> = Array::from_buffer(FixedSizePrimitive::from_buffer(Validity::from_collection(v)));
        let (a, s) = kept(a.export()).ok().expect("OB: no offset, no rejection");
        schema_level(schema(&s), b"i\0", NULLABLE, 0);
        array_level(array(&a), n, 0, 2, 0);
        check!(buffer(array(&a), 0).is_null(), "no validity buffer where there is no bitmap");
        check!(buffer(array(&a), 1) == p.cast(), "the values are the array's memory");
    } else {
        let offset: usize = any();
        nd::assume(offset != 0);
        if let Some(b) = any_bitmap(n, offset) {
            let z = Validity::try_from_parts(v, b).ok().expect("OB: lengths match");
            let a: Array<Option<i32>, SymBuf> = Array::from_buffer(FixedSizePrimitive::from_buffer(z));
            check!(a.export().err() == Some(ExportError::NonZeroOffset { offset }), "an offset is rejected with its value");
        }
    }
}
fn boolean() {
    let (bits, offset): (usize, usize) = (any(), any());
    let Some(b) = any_bitmap(bits, offset) else { return };
    let x: &Sym<u8> = b.buffer_ref();
    let p = bit_buffer(x);
    let a: Array<bool, SymBuf> = Array::from_buffer(Boolean::from_buffer(b));
    match kept(a.export()) {
        Ok((a, s)) => {
            check!(offset == 0, "an offset is rejected");
            schema_level(schema(&s), b"b\0", 0, 0);
            array_level(array(&a), bits, 0, 2, 0);
            check!(buffer(array(&a), 0).is_null(), "no validity buffer");
            check!(buffer(array(&a), 1) == p.cast(), "the values are the array's memory");
        }
        Err(e) => check!(offset != 0 && e == ExportError::NonZeroOffset { offset }, "only an offset is rejected, with its value"),
    }
}


type Prim<T> = FixedSizePrimitive<T, NonNullable, SymBuf>;
/// Valid offsets over `data`: any number of lists.
fn any_offsets<C: Collection>(data: C) -> Offsets<C, i32, SymBuf, Vec<C::Owned>>
where
    Vec<C::Owned>: narrow::collection::CollectionAlloc<Owned = C::Owned>,
{
    let first = Sym::<i32>::exact(1, 0);
    first.set(0, 0);
    let o = Offsets::try_from_parts(data, first).ok().expect("OB: one zero offset is valid");
    let b: &Sym<i32> = o.buffer_ref();
    b.havoc(36, 0);
    nd::assume(b.len() > 0);
    o
}
fn list() {
    let v = Sym::<i32>::any(36, 0);
    let (n, p) = (v.len(), v.sl().as_ptr());
    let o = any_offsets(Prim::<i32>::from_buffer(v));
    let w: &Sym<i32> = o.buffer_ref();
    let (lists, q) = (w.len() - 1, w.sl().as_ptr());
    let nullable: bool = any();
    let r = if nullable {
        Array::<Option<Vec<i32>>, SymBuf>::from_buffer(VariableSizeList::from_buffer(Validity::from_collection(o))).export()
    } else {
        Array::<Vec<i32>, SymBuf>::from_buffer(VariableSizeList::from_buffer(o)).export()
    };
    let (a, s) = kept(r).ok().expect("OB: no offset, no rejection");
    let (a, s) = (array(&a), schema(&s));
    schema_level(s, b"+l\0", if nullable { NULLABLE } else { 0 }, 1);
    array_level(a, lists, 0, 2, 1);
    check!(buffer(a, 0).is_null(), "no validity buffer");
    check!(buffer(a, 1) == q.cast(), "the offsets are the array's memory");
    schema_level(schema_child(s, 0), b"i\0", 0, 0);
    array_level(child(a, 0), n, 0, 2, 0);
    check!(buffer(child(a, 0), 0).is_null() && buffer(child(a, 0), 1) == p.cast(), "the child is the array's memory");
}
fn fixed() {
    let v = Sym::<u16>::any(36, 0);
    let (n, p) = (v.len(), v.sl().as_ptr());
    let Ok(f) = Flatten::<Prim<u16>, 3>::try_from_parts(Prim::from_buffer(v)) else { return };
    let nullable: bool = any();
    let r = if nullable {
        Array::<Option<[u16; 3]>, SymBuf>::from_buffer(FixedSizeList::from_buffer(Validity::from_collection(f))).export()
    } else {
        Array::<[u16; 3], SymBuf>::from_buffer(FixedSizeList::from_buffer(f)).export()
    };
    let (a, s) = kept(r).ok().expect("OB: no offset, no rejection");
    let (a, s) = (array(&a), schema(&s));
    schema_level(s, b"+w:3\0", if nullable { NULLABLE } else { 0 }, 1);
    array_level(a, n / 3, 0, 1, 1);
    check!(buffer(a, 0).is_null(), "no validity buffer");
    schema_level(schema_child(s, 0), b"S\0", 0, 0);
    array_level(child(a, 0), n, 0, 2, 0);
    check!(buffer(child(a, 0), 0).is_null() && buffer(child(a, 0), 1) == p.cast(), "the child is the array's memory");
}
/// Lists of packed booleans: an offset of the inner level is rejected too.
fn nested() {
    let (bits, offset): (usize, usize) = (any(), any());
    let Some(b) = any_bitmap(bits, offset) else { return };
    let x: &Sym<u8> = b.buffer_ref();
    let p = bit_buffer(x);
    let o = any_offsets(Boolean::<NonNullable, SymBuf>::from_buffer(b));
    let w: &Sym<i32> = o.buffer_ref();
    let (lists, q) = (w.len() - 1, w.sl().as_ptr());
    match kept(Array::<Vec<bool>, SymBuf>::from_buffer(VariableSizeList::from_buffer(o)).export()) {
        Ok((a, s)) => {
            check!(offset == 0, "an offset of an inner level is rejected");
            let (a, s) = (array(&a), schema(&s));
            schema_level(s, b"+l\0", 0, 1);
            array_level(a, lists, 0, 2, 1);
            check!(buffer(a, 0).is_null() && buffer(a, 1) == q.cast(), "the offsets are the array's memory");
            schema_level(schema_child(s, 0), b"b\0", 0, 0);
            array_level(child(a, 0), bits, 0, 2, 0);
            check!(buffer(child(a, 0), 0).is_null() && buffer(child(a, 0), 1) == p.cast(), "the child is the array's memory");
        }
        Err(e) => check!(offset != 0 && e == ExportError::NonZeroOffset { offset }, "only an offset is rejected, with its value"),
    }
}
/// A validity bitmap at the start of a byte, of `B` bytes.
fn validity<const B: usize>(n: usize) -> (Bm, *const u8, usize) {
    let v = Sym::<u8>::exact(B, 0);
    let mut i = 0;
    while i < B {
        v.pin(i);
        i += 1;
    }
    let p = v.sl().as_ptr();
    let (mut nulls, mut i) = (0, 0);
    while i < B * 8 {
        if i < n && !spec::bit(v.sl(), i) {
            nulls += 1;
        }
        i += 1;
    }
    (Bm::try_from_parts(v, n, 0).ok().expect("OB: fits"), p, nulls)
}
fn counted_primitive<const B: usize>() {
    let n = nd::below(B * 8 + 1);
    let v = Sym::<u8>::exact(n, 0);
    let p = v.sl().as_ptr();
    let (b, q, nulls) = validity::<B>(n);
    let z = Validity::try_from_parts(v, b).ok().expect("OB: lengths match");
    let (a, s) = kept(Array::<Option<u8>, SymBuf>::from_buffer(FixedSizePrimitive::from_buffer(z)).export()).ok().expect("OB: no offset, no rejection");
    schema_level(schema(&s), b"C\0", NULLABLE, 0);
    array_level(array(&a), n, nulls, 2, 0);
    check!(buffer(array(&a), 0) == q.cast() && buffer(array(&a), 1) == p.cast(), "validity and values are the array's memory");
}
/// Nullable booleans: two bitmaps, either of which may be at an offset.
fn counted_boolean(n: usize) {
    let (vo, bo): (usize, usize) = (any(), any());
    let v = Sym::<u8>::exact(2, 0);
    let (q, m0, m1) = (v.sl().as_ptr(), v.pin(0), v.pin(1));
    let x = Sym::<u8>::exact(2, 0);
    let p = x.sl().as_ptr();
    let (Ok(v), Ok(x)) = (Bm::try_from_parts(v, n, vo), Bm::try_from_parts(x, n, bo)) else { return };
    let z = Validity::try_from_parts(x, v).ok().expect("OB: lengths match");
    match kept(Array::<Option<bool>, SymBuf>::from_buffer(Boolean::from_buffer(z)).export()) {
        Ok((a, s)) => {
            check!(vo == 0 && bo == 0, "an offset of either bitmap is rejected");
            schema_level(schema(&s), b"b\0", NULLABLE, 0);
            let (mut nulls, mut i) = (0, 0);
            while i < n {
                nulls += usize::from(!spec::bit(&[m0, m1], i));
                i += 1;
            }
            array_level(array(&a), n, nulls, 2, 0);
            check!(buffer(array(&a), 0) == q.cast() && buffer(array(&a), 1) == p.cast(), "validity and values are the array's memory");
        }
        Err(e) => check!((vo != 0 && e == ExportError::NonZeroOffset { offset: vo }) || (bo != 0 && e == ExportError::NonZeroOffset { offset: bo }), "only an offset is rejected, with its value"),
    }
}
fn counted_list(n: usize) {
    let v = Sym::<i64>::any(36, 0);
    let o = any_offsets(Prim::<i64>::from_buffer(v));
    let w: &Sym<i32> = o.buffer_ref();
    nd::assume(w.len() == n + 1);
    let q = w.sl().as_ptr();
    let (b, m, nulls) = validity::<1>(n);
    let z = Validity::try_from_parts(o, b).ok().expect("OB: lengths match");
    let (a, s) = kept(Array::<Option<Vec<i64>>, SymBuf>::from_buffer(VariableSizeList::from_buffer(z)).export()).ok().expect("OB: no offset, no rejection");
    schema_level(schema(&s), b"+l\0", NULLABLE, 1);
    array_level(array(&a), n, nulls, 2, 1);
    check!(buffer(array(&a), 0) == m.cast() && buffer(array(&a), 1) == q.cast(), "validity and offsets are the array's memory");
}
/// Fixed-size lists of nullable values: nulls are counted at each level.
fn counted_fixed(n: usize) {
    let v = Sym::<f32>::exact(2 * n, 0);
    let p = v.sl().as_ptr();
    let (b, q, inner) = validity::<1>(2 * n);
    let c = FixedSizePrimitive::<f32, Nullable, SymBuf>::from_buffer(Validity::try_from_parts(v, b).ok().expect("OB: lengths match"));
    let f = Flatten::<_, 2>::try_from_parts(c).ok().expect("OB: a multiple");
    let (b, m, outer) = validity::<1>(n);
    let z = Validity::try_from_parts(f, b).ok().expect("OB: lengths match");
    let (a, s) = kept(Array::<Option<[Option<f32>; 2]>, SymBuf>::from_buffer(FixedSizeList::from_buffer(z)).export()).ok().expect("OB: no offset, no rejection");
    let (a, s) = (array(&a), schema(&s));
    schema_level(s, b"+w:2\0", NULLABLE, 1);
    array_level(a, n, outer, 1, 1);
    check!(buffer(a, 0) == m.cast(), "the validity is the array's memory");
    schema_level(schema_child(s, 0), b"f\0", NULLABLE, 0);
    array_level(child(a, 0), 2 * n, inner, 2, 0);
    check!(buffer(child(a, 0), 0) == q.cast() && buffer(child(a, 0), 1) == p.cast(), "validity and values of the child are the array's memory");
}

obligations! { "C17";
    proof c17_i8 [3] "any 8-bit values" { primitive::<i8>(b"c\0") }
    proof c17_u16 [3] "any 16-bit values" { primitive::<u16>(b"S\0") }
    proof c17_i32 [3] "any 32-bit values" { primitive::<i32>(b"i\0") }
    proof c17_u32 [3] "any 32-bit unsigned values" { primitive::<u32>(b"I\0") }
    proof c17_u64 [3] "any 64-bit values" { primitive::<u64>(b"L\0") }
    proof c17_i64 [3] "any 64-bit signed values" { primitive::<i64>(b"l\0") }
    proof c17_f64 [3] "any doubles" { primitive::<f64>(b"g\0") }
    proof c17_nullable [3] "nullable values: no bitmap, or any bitmap not at the start of a byte" { nullable_primitive() }
    proof c17_boolean [3] "any packed booleans, any offset" { boolean() }
    proof_sd c17_list [4] "any lists, nullable or not" { list() }
    proof_sd c17_fixed [12] "any fixed-size lists, nullable or not" { fixed() }
    proof_sd c17_nested [4] "any lists of packed booleans at any offset" { nested() }
    bounded c17_counted_1 [10] "up to 8 nullable values, every validity" { counted_primitive::<1>() }
    bounded c17_counted_2 [18] "up to 16 nullable values, every validity" { counted_primitive::<2>() }
    bounded c17_counted_bool [10] "7 nullable booleans, every validity, any offsets of both bitmaps" { counted_boolean(7) }
    bounded_sd c17_counted_list [10] "5 nullable lists, every validity" { counted_list(5) }
    bounded_sd c17_counted_fixed [12] "3 nullable fixed-size lists of nullable values, every validity" { counted_fixed(3) }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::{cabi::*, fail, gen_::*};

    pub fn exports<T: Item + narrow::layout::ArrayItem, S: Where>()
    where
        T::Memory<S>: Start + Describe,
        Array<T, S>: Start + Export + Collection<Owned = T>,
    {
        let before = fail::blocks();
        {
            let (x, m) = <Array<T, S> as Start>::start(some_len());
            let want = x.describe();
            let offsets = want.offsets();
            match x.export() {
                Ok((a, s)) => {
                    check!(offsets.is_empty(), "an offset at any level is rejected");
                    schema_is(schema(&s), &T::shape());
                    array_is(array(&a), &want, S::INSIDE);
                    check!(read_all::<T>(array(&a)) == m, "a C consumer reads the array's items");
                }
                Err(ExportError::NonZeroOffset { offset }) => check!(offsets.contains(&offset), "only an offset is rejected, with its value"),
                Err(_) => check!(false, "only an offset is rejected"),
            }
        }
        check!(fail::blocks() == before, "nothing is leaked");
    }
}
#[cfg(not(kani))]
use native::exports;

runs! { "C17";
    c17_run_a "37 item types in 6 storages, any offsets: described recursively and read by an independent C consumer" { crate::gen_::reseed(); crate::c_types!(exports) }
    c17_run_b "the same, second stream" { crate::gen_::reseed(); crate::c_types!(exports) }
}
