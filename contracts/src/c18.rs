//! C18: import accepts exactly well-formed structures, borrowing them.

use core::borrow::Borrow;

use narrow::{
    array::Array,
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{BufferRef, SliceBuffer},
    collection::{ChildRef, Collection},
    layout::ArrayItem,
    length::Length,
};
use narrow_ffi::{Import, ImportError};

use crate::{ffi::*, nd, nd::any, spec, store::*};

/// A level as any producer may fill it: every field is arbitrary, pointers are
/// null or lead to memory.
struct Given {
    a: RawArray,
    s: RawSchema,
    nullable: bool,
    buffers: i64,
    children: i64,
    format_ok: bool,
}
/// Either null or `p`.
fn maybe<T>(p: *mut T) -> *mut T {
    if any() { core::ptr::null_mut() } else { p }
}
fn leak<T>(x: T) -> *mut T {
    Box::into_raw(Box::new(x))
}
fn given(buffers: *mut *const core::ffi::c_void, n_buffers: i64, children: Option<(*mut RawArray, *mut RawSchema)>, format: *const u8, format_ok: bool, nullable: bool) -> Given {
    let (ac, sc) = match children {
        Some((a, s)) => (maybe(leak(maybe(a))), maybe(leak(maybe(s)))),
        None => (maybe(8 as *mut _), maybe(8 as *mut _)),
    };
    Given {
        a: RawArray {
            length: any(), null_count: any(), offset: any(), n_buffers: any(), n_children: any(), buffers: maybe(buffers), children: ac,
            dictionary: maybe(8 as *mut _), release: if any() { None } else { Some(keep_array) }, private_data: core::ptr::null_mut(),
        },
        s: RawSchema {
            format: maybe(format.cast_mut()).cast(), name: core::ptr::null(), metadata: core::ptr::null(), flags: any(), n_children: any(), children: sc,
            dictionary: maybe(8 as *mut _), release: if any() { None } else { Some(keep_schema) }, private_data: core::ptr::null_mut(),
        },
        nullable, buffers: n_buffers, children: children.is_some().into(), format_ok,
    }
}
impl Given {
    fn flags_bad(&self) -> bool {
        (self.s.flags & NULLABLE != 0) != self.nullable
    }
    fn nulls_bad(&self) -> bool {
        self.a.null_count < -1 || self.a.null_count > self.a.length || (!self.nullable && self.a.null_count > 0)
    }
    fn children_bad(&self) -> bool {
        self.a.n_children != self.children || self.s.n_children != self.children
    }
    fn no_child_array(&self) -> bool {
        self.children == 1 && (self.a.children.is_null() || unsafe { (*self.a.children).is_null() })
    }
    fn no_child_schema(&self) -> bool {
        self.children == 1 && (self.s.children.is_null() || unsafe { (*self.s.children).is_null() })
    }
    /// The fields common to all types are those of the type.
    fn ok(&self) -> bool {
        let (a, s) = (&self.a, &self.s);
        a.release.is_some() && s.release.is_some() && !s.format.is_null() && self.format_ok && !self.flags_bad() && a.length >= 0 && a.offset == 0
            && !self.nulls_bad() && a.n_buffers == self.buffers && !self.children_bad() && a.dictionary.is_null() && s.dictionary.is_null() && !a.buffers.is_null()
            && !self.no_child_array() && !self.no_child_schema()
    }
    /// Whether `e` names a common field that is indeed wrong.
    fn holds(&self, e: &ImportError) -> bool {
        let (a, s) = (&self.a, &self.s);
        match *e {
            ImportError::ReleasedArray => a.release.is_none(),
            ImportError::ReleasedSchema => s.release.is_none(),
            ImportError::MissingFormat => s.format.is_null(),
            ImportError::UnexpectedFormat => !s.format.is_null() && !self.format_ok,
            ImportError::UnexpectedFlags { flags } => self.flags_bad() && flags == s.flags,
            ImportError::InvalidLength { length } => a.length < 0 && length == a.length,
            ImportError::NonZeroOffset { offset } => a.offset != 0 && offset == a.offset,
            ImportError::UnexpectedNullCount { null_count } => self.nulls_bad() && null_count == a.null_count,
            ImportError::UnexpectedBufferCount { count } => a.n_buffers != self.buffers && count == a.n_buffers,
            ImportError::UnexpectedChildCount { array, schema } => self.children_bad() && array == a.n_children && schema == s.n_children,
            ImportError::UnexpectedDictionary => !a.dictionary.is_null() || !s.dictionary.is_null(),
            ImportError::MissingBufferPointers => a.buffers.is_null(),
            ImportError::MissingArrayChildren => self.no_child_array(),
            ImportError::MissingSchemaChildren => self.no_child_schema(),
            _ => false,
        }
    }
    /// The producer's promise: the buffers hold the declared length.
    fn holds_length(&self, have: usize) {
        nd::assume(self.a.length < 0 || self.a.length as u64 <= have as u64);
    }
}
fn buffers2(first: *const u8, second: *const u8) -> *mut *const core::ffi::c_void {
    leak([first.cast::<core::ffi::c_void>(), second.cast()]).cast()
}
/// Null, one byte off, or `p`.
fn somewhere<T>(p: *const T) -> *const u8 {
    let p = p.cast::<u8>();
    match any::<u8>() % 3 {
        0 => core::ptr::null(),
        1 if align_of::<T>() > 1 => p.wrapping_add(1),
        _ => p,
    }
}
/// Any string of up to `N - 1` characters.
fn text<const N: usize>() -> &'static [u8; N] {
    let mut b: [u8; N] = any();
    b[N - 1] = 0;
    Box::leak(Box::new(b))
}
fn text_is(t: &[u8], want: &[u8]) -> bool {
    let mut i = 0;
    while i < want.len() {
        if t[i] != want[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn import<'a, T>(g: &'a Given) -> Result<Array<T, SliceBuffer<'a>>, ImportError>
where
    T: ArrayItem,
    Array<T, SliceBuffer<'a>>: Import<'a>,
{
    unsafe { Import::import(real_array(&g.a), real_schema(&g.s)) }
}
fn values_bad<T>(g: &Given, p: *const u8) -> Option<ImportError> {
    if g.a.length <= 0 {
        None
    } else if p.is_null() {
        Some(ImportError::MissingValuesBuffer)
    } else if !p.cast::<T>().is_aligned() {
        Some(ImportError::MisalignedValuesBuffer { alignment: align_of::<T>() })
    } else {
        None
    }
}
/// Plain values: `format` is the type's or any string.
fn primitive<T: AnyItem + PartialEq + narrow_ffi::ArrowType>(want: &[u8], format: &'static [u8])
where
    T: ArrayItem + for<'v> narrow::collection::view::AsView<'v, View = T>,
    for<'a> T: ArrayItem<Memory<SliceBuffer<'a>> = narrow::layout::fixed_size_primitive::FixedSizePrimitive<T, narrow::nullability::NonNullable, SliceBuffer<'a>>>,
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let v = any_slice::<T>(36);
    let p = somewhere(v.as_ptr());
    let g = given(buffers2(maybe(8 as *mut u8), p), 2, None, format.as_ptr(), text_is(format, want), false);
    g.holds_length(v.len());
    let bad = values_bad::<T>(&g, p);
    match import::<T>(&g) {
        Ok(x) => {
            check!(g.ok() && bad.is_none(), "only well-formed structures are accepted");
            let w: &[T] = x.buffer_ref().buffer_ref().borrow();
            check!(w.len() == g.a.length as usize, "the length is the structure's");
            check!(w.is_empty() || w.as_ptr().cast() == p, "the values are borrowed");
        }
        Err(e) => {
            check!(!g.ok() || bad.is_some(), "well-formed structures are accepted");
            check!(g.holds(&e) || bad == Some(e), "the error is one that holds");
        }
    }
}
fn boolean(format: &'static [u8]) {
    let v = any_slice::<u8>(36);
    let p = if any() { core::ptr::null() } else { v.as_ptr() };
    let g = given(buffers2(maybe(8 as *mut u8), p), 2, None, format.as_ptr(), text_is(format, b"b\0"), false);
    g.holds_length(v.len() * 8);
    let bad = g.a.length > 0 && p.is_null();
    match import::<bool>(&g) {
        Ok(x) => {
            check!(g.ok() && !bad, "only well-formed structures are accepted");
            let b = x.buffer_ref().buffer_ref();
            check!(b.len() == g.a.length as usize && b.bit_offset() == 0, "the length is the structure's");
            let w: &[u8] = b.buffer_ref().borrow();
            check!(b.len() == 0 || w.as_ptr() == p, "the values are borrowed");
            let i: usize = any();
            if i < b.len() {
                check!(x.view(i) == Some(spec::bit(v, i)), "items are the bits, from the least significant");
            }
        }
        Err(e) => {
            check!(!g.ok() || bad, "well-formed structures are accepted");
            check!(g.holds(&e) || (bad && e == ImportError::MissingValuesBuffer), "the error is one that holds");
        }
    }
}
/// Nullable values of a declared count: `m` holds the validity of at most
/// `MAX` items (any number when the count is unknown).
fn nullable(known: bool) {
    const MAX: i64 = 11;
    let v = any_slice::<u16>(36);
    let p = somewhere(v.as_ptr());
    let (m, q): (&[u8], *const u8) = if known {
        let m: [u8; 2] = any();
        let m = Box::leak(Box::new(m));
        let r = m.as_mut_ptr();
        (m, maybe(r))
    } else {
        let m = any_slice::<u8>(36);
        (m, maybe(m.as_ptr().cast_mut()))
    };
    let g = given(buffers2(q, p), 2, None, b"S\0".as_ptr(), true, true);
    g.holds_length(v.len());
    g.holds_length(m.len() * 8);
    if known {
        nd::assume(q.is_null() || g.a.length <= MAX || g.a.null_count < 0);
    } else {
        nd::assume(q.is_null() || g.a.null_count < 0);
    }
    let bad = values_bad::<u16>(&g, p);
    let missing = q.is_null() && g.a.length > 0 && g.a.null_count != 0;
    let (mut actual, mut i) = (0, 0);
    if known && !q.is_null() {
        while i < MAX {
            actual += usize::from(i < g.a.length && !spec::bit(m, i as usize));
            i += 1;
        }
    }
    let mismatch = g.a.null_count >= 0 && g.a.null_count as usize != actual;
    match import::<Option<u16>>(&g) {
        Ok(x) => {
            check!(g.ok() && bad.is_none() && !missing && !mismatch, "only well-formed structures are accepted");
            let z = x.buffer_ref().buffer_ref();
            check!(x.len() == g.a.length as usize, "the length is the structure's");
            let w: &[u16] = z.child_ref().borrow();
            check!(w.len() == x.len() && (w.is_empty() || w.as_ptr().cast() == p), "the values are borrowed");
            match z.bitmap_ref() {
                None => check!(q.is_null(), "no bitmap where the structure has none"),
                Some(b) => {
                    let c: &[u8] = b.buffer_ref().borrow();
                    check!(b.bit_offset() == 0 && (c.is_empty() || c.as_ptr() == q), "the validity is borrowed");
                }
            }
            let i: usize = any();
            if i < x.len() {
                check!(x.owned(i) == Some((q.is_null() || spec::bit(m, i)).then(|| v[i])), "items are the values that are valid");
            }
        }
        Err(e) => {
            check!(!g.ok() || bad.is_some() || missing || mismatch, "well-formed structures are accepted");
            check!(
                g.holds(&e) || bad == Some(e) || (missing && e == ImportError::MissingValidityBuffer)
                    || (mismatch && e == ImportError::NullCountMismatch { declared: g.a.null_count, actual }),
                "the error is one that holds"
            );
        }
    }
}
/// A child level of 16-bit values, any length.
fn child_level() -> (Given, usize, *const u8, &'static [u16]) {
    let v = any_slice::<u16>(36);
    let p = somewhere(v.as_ptr());
    let g = given(buffers2(core::ptr::null(), p), 2, None, b"S\0".as_ptr(), true, false);
    g.holds_length(v.len());
    (g, v.len(), p, v)
}
fn fixed(format: &'static [u8], format_ok: bool) {
    let (mut c, _, p, v) = child_level();
    let child_bad = values_bad::<u16>(&c, p);
    let g = given(leak([maybe(8 as *mut core::ffi::c_void).cast_const()]).cast(), 1, Some((&mut c.a, &mut c.s)), format.as_ptr(), format_ok, false);
    let below = c.ok() && child_bad.is_none();
    let mismatch = c.a.length >= 0 && g.a.length >= 0 && g.a.length.checked_mul(3) != Some(c.a.length);
    match import::<[u16; 3]>(&g) {
        Ok(x) => {
            check!(g.ok() && below && !mismatch, "only well-formed structures are accepted");
            check!(x.len() == g.a.length as usize, "the length is the structure's");
            let w: &[u16] = x.buffer_ref().buffer_ref().child_ref().buffer_ref().borrow();
            check!(w.len() == c.a.length as usize && (w.is_empty() || w.as_ptr().cast() == p), "the child's values are borrowed");
        }
        Err(e) => {
            check!(!g.ok() || !below || mismatch, "well-formed structures are accepted");
            check!(
                g.holds(&e) || (!g.no_child_array() && !g.no_child_schema() && (c.holds(&e) || child_bad == Some(e)))
                    || (mismatch && e == ImportError::FixedSizeListLengthMismatch { length: g.a.length as usize, child_length: c.a.length as usize, size: 3 }),
                "the error is one that holds"
            );
        }
    }
}
/// The width of a fixed-size list is written in decimal.
fn width_ok(t: &[u8], n: usize) -> bool {
    if t[0] != b'+' || t[1] != b'w' || t[2] != b':' || t[3] == 0 {
        return false;
    }
    let (mut x, mut i) = (0usize, 3);
    while i < t.len() && t[i] != 0 {
        if t[i] < b'0' || t[i] > b'9' {
            return false;
        }
        x = x * 10 + usize::from(t[i] - b'0');
        i += 1;
    }
    x == n
}
fn list(lists: usize, format: &'static [u8]) {
    let (mut c, _, p, _) = child_level();
    let child_bad = values_bad::<u16>(&c, p);
    let w = any_slice_len::<i32>(lists + 1);
    let q = somewhere(w.as_ptr());
    let g = given(buffers2(maybe(8 as *mut u8), q), 2, Some((&mut c.a, &mut c.s)), format.as_ptr(), text_is(format, b"+l\0"), false);
    g.holds_length(lists);
    let below = c.ok() && child_bad.is_none();
    let bad = if q.is_null() {
        Some(ImportError::MissingOffsetsBuffer)
    } else if !q.cast::<i32>().is_aligned() {
        Some(ImportError::MisalignedOffsetsBuffer { alignment: 4 })
    } else {
        None
    };
    let mut valid = w[0] == 0;
    let mut i = 0;
    while i < lists {
        valid &= i as i64 >= g.a.length || w[i] <= w[i + 1];
        i += 1;
    }
    valid &= g.a.length < 0 || i64::from(w[g.a.length as usize]) <= c.a.length;
    match import::<Vec<u16>>(&g) {
        Ok(x) => {
            check!(g.ok() && below && bad.is_none() && valid, "only well-formed structures are accepted");
            check!(x.len() == g.a.length as usize, "the length is the structure's");
            let o = x.buffer_ref().buffer_ref();
            let y: &[i32] = o.buffer_ref().borrow();
            check!(y.as_ptr().cast() == q && y.len() == x.len() + 1, "the offsets are borrowed");
            let z: &[u16] = o.child_ref().buffer_ref().borrow();
            check!(z.len() == c.a.length as usize && (z.is_empty() || z.as_ptr().cast() == p), "the child's values are borrowed");
        }
        Err(e) => {
            check!(!g.ok() || !below || bad.is_some() || !valid, "well-formed structures are accepted");
            check!(
                g.holds(&e) || bad == Some(e) || (!g.no_child_array() && !g.no_child_schema() && (c.holds(&e) || child_bad == Some(e)))
                    || (!valid && matches!(e, ImportError::InvalidOffsets { .. })),
                "the error is one that holds"
            );
        }
    }
}
/// Width zero is refused, whatever the structure.
fn width_zero() {
    let (mut c, _, p, _) = child_level();
    let g = given(leak([core::ptr::null::<core::ffi::c_void>()]).cast(), 1, Some((&mut c.a, &mut c.s)), b"+w:0\0".as_ptr(), true, false);
    match import::<[u16; 0]>(&g) {
        Ok(_) => check!(false, "width zero is refused"),
        Err(e) => check!(
            g.holds(&e) || e == ImportError::UnsupportedFixedSizeListSize { size: 0 } || (!g.no_child_array() && !g.no_child_schema() && (c.holds(&e) || values_bad::<u16>(&c, p) == Some(e))),
            "the error is one that holds"
        ),
    }
}

obligations! { "C18";
    proof_sd c18_i8 [4] "any structure offered as 8-bit values, the format string aside" { primitive::<i8>(b"c\0", b"c\0") }
    proof_sd c18_i32 [4] "any structure offered as 32-bit values, the format string aside" { primitive::<i32>(b"i\0", b"i\0") }
    proof_sd c18_u64 [4] "any structure offered as 64-bit values, the format string aside" { primitive::<u64>(b"L\0", b"L\0") }
    proof_sd c18_f64 [4] "any structure offered as doubles, the format string aside" { primitive::<f64>(b"g\0", b"g\0") }
    bounded_sd c18_format_u8 [6] "any structure offered as bytes, format strings of up to 3 characters" { primitive::<u8>(b"C\0", text::<4>()) }
    proof_sd c18_boolean [4] "any structure offered as booleans, the format string aside" { boolean(b"b\0") }
    bounded_sd c18_format_bool [6] "any structure offered as booleans, format strings of up to 3 characters" { boolean(text::<4>()) }
    proof_sd c18_nullable [4] "any structure offered as nullable values, of unknown null count or without validity" { nullable(false) }
    bounded_sd c18_counted [13] "any structure offered as nullable values, up to 11 items when nulls are counted" { nullable(true) }
    proof_sd c18_fixed [6] "any structure offered as lists of 3 values, the format string aside" { fixed(b"+w:3\0", true) }
    bounded_sd c18_format_fixed [9] "any structure offered as lists of 3 values, format strings of up to 6 characters" { let t = text::<7>(); fixed(t, width_ok(t, 3)) }
    proof_sd c18_width_zero [6] "any structure offered as lists of no values" { width_zero() }
    bounded_sd c18_list [6] "any structure offered as lists, up to 3 lists" { list(3, b"+l\0") }
    bounded_sd c18_format_list [6] "any structure offered as lists, one list, format strings of up to 3 characters" { list(1, text::<4>()) }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::{cabi::*, gen_::*};

    /// The imported collection borrows the memory of the structure.
    fn borrows(a: &RawArray, l: &Level) {
        check!(a.length as usize == l.length, "the length is the structure's");
        check!(a.null_count < 0 || a.null_count as usize == l.nulls, "a declared null count is the actual one");
        for (i, p) in l.ptrs.iter().enumerate() {
            let values = i == 1 && l.children.is_empty();
            check!(p.is_null() || (values && l.length == 0) || *p == buffer(a, i), "buffers are borrowed");
        }
        for (i, c) in l.children.iter().enumerate() {
            borrows(child(a, i), c);
        }
    }
    fn imports<T: Item + ArrayItem>(changes: usize)
    where
        for<'a> T::Memory<SliceBuffer<'a>>: Describe,
        for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    {
        let mut pool = Pool::default();
        let m: Vec<T> = (0..some_len()).map(|_| Gen::gen_()).collect();
        let made = T::make(&m, &mut pool);
        for _ in 0..changes {
            mutate(&made, &mut pool);
        }
        let (a, s) = unsafe { (&*made.array, &*made.schema) };
        let mut errs = Vec::new();
        wrong::<T>(a, s, &mut errs);
        let copy = *a;
        match unsafe { <Array<T, SliceBuffer<'_>> as Import>::import(real_array(a), real_schema(s)) } {
            Ok(x) => {
                check!(errs.is_empty(), "structures that are not well-formed for the type are refused");
                borrows(a, &x.describe());
                let want: Vec<T> = read_all(a);
                check!(changes > 0 || want == m, "OB: the oracle agrees with itself");
                reads(&x, &want);
                consume(x, &want);
            }
            Err(e) => {
                check!(!errs.is_empty(), "well-formed structures are accepted");
                check!(among(&e, &errs), "the error is one that holds");
            }
        }
        check!(a.length == copy.length && a.release == copy.release && a.buffers == copy.buffers, "the structure is left as it was");
    }
    pub fn good<T: Item + ArrayItem>()
    where
        for<'a> T::Memory<SliceBuffer<'a>>: Describe,
        for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    {
        imports::<T>(0)
    }
    pub fn changed<T: Item + ArrayItem>()
    where
        for<'a> T::Memory<SliceBuffer<'a>>: Describe,
        for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    {
        imports::<T>(1 + pick(4) / 3)
    }
}
#[cfg(not(kani))]
use native::{changed, good};

runs! { "C18";
    c18_run_good "37 item types: structures of an independent producer are accepted, read and borrowed" { crate::gen_::reseed(); crate::import_types!(good) }
    c18_run_one "37 item types: one or two fields changed at any level, accepted exactly when still well-formed" { crate::gen_::reseed(); crate::import_types!(changed) }
    c18_run_two "the same, second stream" { crate::gen_::reseed(); crate::import_types!(changed) }
}
