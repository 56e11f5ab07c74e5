//! An independent consumer and producer of the C data interface, written from
//! the Arrow specification: the oracle of the executed contracts C17 to C20.

use std::any::Any;
use std::borrow::Borrow;
use std::cell::Cell;
use std::ffi::{c_char, c_void};
use std::rc::Rc;
use std::sync::Arc;

use narrow::{
    array::Array,
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{Buffer, BufferRef},
    collection::{ChildRef, Collection},
    fixed_size::FixedSize,
    layout::{ArrayItem, boolean::Boolean, fixed_size_list::FixedSizeList, fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList},
    length::Length,
    nullability::{NonNullable, Nullable},
    offset::Offset,
};
use narrow_ffi::{ArrowArray, ArrowSchema, ImportError};

use crate::{ffi::*, gen_::*, nd, spec};

// ------------------------------------------------------------------- types

/// What the schema of a type says.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Shape {
    pub format: String,
    pub nullable: bool,
    pub buffers: usize,
    pub children: Vec<Shape>,
}
/// Owns the memory of produced structures.
#[derive(Default)]
pub struct Pool(Vec<Box<dyn Any>>);
impl Pool {
    /// Eight-byte aligned memory holding `b`, and slack.
    pub fn bytes(&mut self, b: &[u8], slack: usize) -> *const c_void {
        let n = (b.len() + slack + 16) / 8;
        // never a NaN when read as floating-point values
        let mut v: Vec<u64> = (0..n).map(|_| rnd() & 0xBFBF_BFBF_BFBF_BFBF).collect();
        let p = v.as_mut_ptr().cast::<u8>();
        unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        self.0.push(Box::new(v));
        p.cast_const().cast()
    }
    pub fn text(&mut self, s: &str) -> *const c_char {
        let c = std::ffi::CString::new(s).unwrap();
        let p = c.as_ptr();
        self.0.push(Box::new(c));
        p
    }
    fn pointers<T: 'static>(&mut self, v: Vec<*mut T>) -> *mut *mut T {
        let mut v = v;
        let p = v.as_mut_ptr();
        self.0.push(Box::new(v));
        p
    }
    fn put<T: 'static>(&mut self, x: T) -> *mut T {
        let mut b = Box::new(x);
        let p: *mut T = &mut *b;
        self.0.push(b);
        p
    }
}
/// A produced level.
pub struct Made {
    pub array: *mut RawArray,
    pub schema: *mut RawSchema,
}
const SLACK: usize = 24;
fn level(p: &mut Pool, format: &str, length: usize, buffers: Vec<*const c_void>, child: Option<Made>) -> Made {
    let buffers: Vec<*mut c_void> = buffers.into_iter().map(|b| b.cast_mut()).collect();
    let n_buffers = buffers.len() as i64;
    let buffers = p.pointers(buffers).cast::<*const c_void>();
    let (ac, sc) = match child {
        Some(c) => (p.pointers(vec![c.array]), p.pointers(vec![c.schema])),
        None => (core::ptr::null_mut(), core::ptr::null_mut()),
    };
    let n_children = i64::from(!ac.is_null());
    let array = p.put(RawArray {
        length: length as i64, null_count: if coin() { 0 } else { -1 }, offset: 0, n_buffers, n_children, buffers, children: ac,
        dictionary: core::ptr::null_mut(), release: Some(keep_array), private_data: core::ptr::null_mut(),
    });
    let format = p.text(format);
    let name = if coin() { core::ptr::null() } else { p.text("name") };
    let schema = p.put(RawSchema {
        format, name, metadata: core::ptr::null(), flags: if coin() { 0 } else { (rnd() as i64) & !NULLABLE }, n_children, children: sc,
        dictionary: core::ptr::null_mut(), release: Some(keep_schema), private_data: core::ptr::null_mut(),
    });
    Made { array, schema }
}

/// Items of the C data interface.
pub trait Item: Gen + Default {
    fn shape() -> Shape;
    /// Item `i`, read as a C consumer reads it.
    fn read(a: &RawArray, i: usize) -> Self;
    /// Memory holding the items, as a C producer makes it.
    fn make(items: &[Self], p: &mut Pool) -> Made;
    /// Every condition that makes the values of this level and its children
    /// unacceptable, the fields common to all levels aside.
    fn wrong(a: &RawArray, s: &RawSchema, errs: &mut Vec<ImportError>);
}
macro_rules! prim { ($($t:ty = $f:literal),*) => { $(
    impl Item for $t {
        fn shape() -> Shape { Shape { format: $f.into(), nullable: false, buffers: 2, children: vec![] } }
        fn read(a: &RawArray, i: usize) -> Self { unsafe { *buffer(a, 1).cast::<$t>().add(i) } }
        fn make(items: &[Self], p: &mut Pool) -> Made {
            let b: Vec<u8> = items.iter().flat_map(|x| x.to_ne_bytes()).collect();
            let v = p.bytes(&b, SLACK * size_of::<$t>());
            let none = if coin() { core::ptr::null() } else { p.bytes(&[], SLACK) };
            level(p, $f, items.len(), vec![none, v], None)
        }
        fn wrong(a: &RawArray, _: &RawSchema, errs: &mut Vec<ImportError>) {
            if a.length > 0 && !a.buffers.is_null() {
                let b = buffer(a, 1);
                if b.is_null() { errs.push(ImportError::MissingValuesBuffer) }
                else if b as usize % align_of::<$t>() != 0 { errs.push(ImportError::MisalignedValuesBuffer { alignment: align_of::<$t>() }) }
            }
        }
    }
)* } }
prim!(u8 = "C", i8 = "c", u16 = "S", i16 = "s", u32 = "I", i32 = "i", u64 = "L", i64 = "l", f64 = "g", f32 = "f");
impl Gen for f32 {
    fn gen_() -> Self { (rnd() as i16).into() }
    fn simple() -> Self { Self::gen_() }
}
fn packed(bits: impl Iterator<Item = bool>, p: &mut Pool) -> *const c_void {
    let mut b: Vec<u8> = Vec::new();
    for (i, x) in bits.enumerate() {
        if i % 8 == 0 {
            b.push(if coin() { 0 } else { 0xff });
        }
        let m = 1 << (i % 8);
        if x { b[i / 8] |= m } else { b[i / 8] &= !m }
    }
    p.bytes(&b, SLACK)
}
fn raw_bit(p: *const c_void, i: usize) -> bool {
    unsafe { *p.cast::<u8>().add(i / 8) >> (i % 8) & 1 == 1 }
}
impl Item for bool {
    fn shape() -> Shape { Shape { format: "b".into(), nullable: false, buffers: 2, children: vec![] } }
    fn read(a: &RawArray, i: usize) -> Self { raw_bit(buffer(a, 1), i) }
    fn make(items: &[Self], p: &mut Pool) -> Made {
        let v = packed(items.iter().copied(), p);
        let none = if coin() { core::ptr::null() } else { p.bytes(&[], SLACK) };
        level(p, "b", items.len(), vec![none, v], None)
    }
    fn wrong(a: &RawArray, _: &RawSchema, errs: &mut Vec<ImportError>) {
        if a.length > 0 && !a.buffers.is_null() && buffer(a, 1).is_null() {
            errs.push(ImportError::MissingValuesBuffer);
        }
    }
}
impl<T: Item> Item for Option<T> {
    fn shape() -> Shape { Shape { nullable: true, ..T::shape() } }
    fn read(a: &RawArray, i: usize) -> Self {
        let v = buffer(a, 0);
        (v.is_null() || raw_bit(v, i)).then(|| T::read(a, i))
    }
    fn make(items: &[Self], p: &mut Pool) -> Made {
        // what is stored for an absent item is arbitrary
        let stored: Vec<T> = items.iter().map(|x| x.clone().unwrap_or_else(|| if coin() { T::default() } else { T::gen_() })).collect();
        let m = T::make(&stored, p);
        let nulls = items.iter().filter(|x| x.is_none()).count();
        let (a, s) = unsafe { (&mut *m.array, &mut *m.schema) };
        s.flags |= NULLABLE;
        a.null_count = if coin() { nulls as i64 } else { -1 };
        let none = (nulls == 0 && a.null_count == 0 || items.is_empty()) && coin();
        let v = if none { core::ptr::null() } else { packed(items.iter().map(|x| x.is_some()), p) };
        unsafe { *a.buffers = v };
        m
    }
    fn wrong(a: &RawArray, s: &RawSchema, errs: &mut Vec<ImportError>) {
        T::wrong(a, s, errs);
        if a.length < 0 || a.buffers.is_null() {
            return;
        }
        let v = buffer(a, 0);
        if v.is_null() {
            if a.length > 0 && a.null_count != 0 {
                errs.push(ImportError::MissingValidityBuffer);
            }
        } else if a.null_count >= 0 {
            let actual = (0..a.length as usize).filter(|i| !raw_bit(v, *i)).count();
            if actual as i64 != a.null_count {
                errs.push(ImportError::NullCountMismatch { declared: a.null_count, actual });
            }
        }
    }
}
fn offset_of(a: &RawArray, i: usize) -> i32 {
    unsafe { *buffer(a, 1).cast::<i32>().add(i) }
}
impl<T: Item> Item for Vec<T> {
    fn shape() -> Shape { Shape { format: "+l".into(), nullable: false, buffers: 2, children: vec![T::shape()] } }
    fn read(a: &RawArray, i: usize) -> Self { (offset_of(a, i)..offset_of(a, i + 1)).map(|k| T::read(child(a, 0), k as usize)).collect() }
    fn make(items: &[Self], p: &mut Pool) -> Made {
        let mut w = vec![0i32];
        for x in items {
            w.push(w[w.len() - 1] + x.len() as i32);
        }
        // offsets beyond the declared length, valid or not
        for _ in 0..SLACK {
            let l = w[w.len() - 1];
            w.push(if pick(20) == 0 { rnd() as i32 } else { l.wrapping_add(pick(2) as i32) });
        }
        let mut all: Vec<T> = items.iter().flatten().cloned().collect();
        all.extend((0..pick(9)).map(|_| T::gen_()));
        let c = T::make(&all, p);
        let b: Vec<u8> = w.iter().flat_map(|x| x.to_ne_bytes()).collect();
        let v = p.bytes(&b, 0);
        let none = if coin() { core::ptr::null() } else { p.bytes(&[], SLACK) };
        level(p, "+l", items.len(), vec![none, v], Some(c))
    }
    fn wrong(a: &RawArray, s: &RawSchema, errs: &mut Vec<ImportError>) {
        descend::<T>(a, s, errs);
        if a.length < 0 || a.buffers.is_null() {
            return;
        }
        let b = buffer(a, 1);
        if b.is_null() {
            errs.push(ImportError::MissingOffsetsBuffer);
        } else if b as usize % 4 != 0 {
            errs.push(ImportError::MisalignedOffsetsBuffer { alignment: 4 });
        } else {
            let w: Vec<i32> = (0..=a.length as usize).map(|i| offset_of(a, i)).collect();
            let n = has_child(a).map_or(0, |c| c.length);
            if w[0] != 0 || w.windows(2).any(|p| p[0] > p[1]) || i64::from(w[w.len() - 1]) > n {
                errs.push(INVALID_OFFSETS);
            }
        }
    }
}
/// Stands for every error about the values of offsets.
const INVALID_OFFSETS: ImportError = ImportError::InvalidOffsets { error: narrow::offset::OffsetsError::Empty };
fn has_child(a: &RawArray) -> Option<&RawArray> {
    (!a.children.is_null() && unsafe { !(*a.children).is_null() }).then(|| child(a, 0))
}
fn descend<T: Item>(a: &RawArray, s: &RawSchema, errs: &mut Vec<ImportError>) {
    let c = has_child(a);
    if c.is_none() {
        errs.push(ImportError::MissingArrayChildren);
    }
    if s.children.is_null() || unsafe { (*s.children).is_null() } {
        errs.push(ImportError::MissingSchemaChildren);
    } else if let Some(c) = c {
        wrong::<T>(c, schema_child(s, 0), errs);
    }
}
impl<T: Item, const N: usize> Item for [T; N]
where
    [T; N]: Default,
{
    fn shape() -> Shape { Shape { format: format!("+w:{N}"), nullable: false, buffers: 1, children: vec![T::shape()] } }
    fn read(a: &RawArray, i: usize) -> Self { core::array::from_fn(|k| T::read(child(a, 0), i * N + k)) }
    fn make(items: &[Self], p: &mut Pool) -> Made {
        let all: Vec<T> = items.iter().flatten().cloned().collect();
        let c = T::make(&all, p);
        let none = if coin() { core::ptr::null() } else { p.bytes(&[], SLACK) };
        level(p, &format!("+w:{N}"), items.len(), vec![none], Some(c))
    }
    fn wrong(a: &RawArray, s: &RawSchema, errs: &mut Vec<ImportError>) {
        descend::<T>(a, s, errs);
        if N == 0 {
            errs.push(ImportError::UnsupportedFixedSizeListSize { size: 0 });
        }
        if let (Some(c), true) = (has_child(a), a.length >= 0) {
            if c.length >= 0 && a.length.checked_mul(N as i64) != Some(c.length) {
                errs.push(ImportError::FixedSizeListLengthMismatch { length: a.length as usize, child_length: c.length as usize, size: N });
            }
        }
    }
}
/// Every condition that makes the structures unacceptable as a `T`.
pub fn wrong<T: Item>(a: &RawArray, s: &RawSchema, errs: &mut Vec<ImportError>) {
    let shape = T::shape();
    let mut bad = |c: bool, e: ImportError| {
        if c {
            errs.push(e);
        }
    };
    bad(a.release.is_none(), ImportError::ReleasedArray);
    bad(s.release.is_none(), ImportError::ReleasedSchema);
    if s.format.is_null() {
        bad(true, ImportError::MissingFormat);
    } else {
        let f = unsafe { std::ffi::CStr::from_ptr(s.format) }.to_str().unwrap_or("?").to_string();
        let f = match f.strip_prefix("+w:") {
            // the width is a decimal number
            Some(d) if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) => {
                let d = d.trim_start_matches('0');
                format!("+w:{}", if d.is_empty() { "0" } else { d })
            }
            _ => f,
        };
        bad(f != shape.format, ImportError::UnexpectedFormat);
    }
    bad((s.flags & NULLABLE != 0) != shape.nullable, ImportError::UnexpectedFlags { flags: s.flags });
    bad(a.length < 0, ImportError::InvalidLength { length: a.length });
    bad(a.offset != 0, ImportError::NonZeroOffset { offset: a.offset });
    bad(a.null_count < -1 || a.null_count > a.length || (!shape.nullable && a.null_count > 0), ImportError::UnexpectedNullCount { null_count: a.null_count });
    bad(a.n_buffers != shape.buffers as i64, ImportError::UnexpectedBufferCount { count: a.n_buffers });
    let k = shape.children.len() as i64;
    bad(a.n_children != k || s.n_children != k, ImportError::UnexpectedChildCount { array: a.n_children, schema: s.n_children });
    bad(!a.dictionary.is_null() || !s.dictionary.is_null(), ImportError::UnexpectedDictionary);
    bad(a.buffers.is_null(), ImportError::MissingBufferPointers);
    T::wrong(a, s, errs);
}
/// Whether `e` is one of the conditions found.
pub fn among(e: &ImportError, errs: &[ImportError]) -> bool {
    match e {
        ImportError::InvalidOffsets { .. } => errs.contains(&INVALID_OFFSETS),
        e => errs.contains(e),
    }
}
/// Breaks the structures somewhere below (and including) this level.
pub fn mutate(m: &Made, p: &mut Pool) {
    let (mut a, mut s) = unsafe { (&mut *m.array, &mut *m.schema) };
    while coin() && !a.children.is_null() && !s.children.is_null() && unsafe { !(*a.children).is_null() && !(*s.children).is_null() } {
        (a, s) = unsafe { (&mut **a.children, &mut **s.children) };
    }
    let odd = |x: i64| match pick(6) { 0 => i64::MIN, 1 => -1, 2 => i64::MAX, 3 => x.wrapping_add(1), 4 => x.wrapping_sub(1), _ => rnd() as i64 };
    match pick(22) {
        0 => a.release = None,
        1 => s.release = None,
        2 => s.format = core::ptr::null(),
        3 | 4 => {
            let all = ["", "C", "c", "S", "i", "I", "L", "l", "g", "f", "b", "+l", "+L", "+w:", "+w:2", "+w:3", "+w:02", "+w:0000000000000000000002", "+w:18446744073709551618", "+w:2 ", "+w:-2", "+w", "+w:3x", "+wx3", "bb", "ii", "+", "+la"];
            s.format = p.text(all[pick(all.len())]);
        }
        5 => s.flags ^= NULLABLE,
        6 => s.flags = rnd() as i64,
        7 => a.length = [-1, i64::MIN, -(pick(100) as i64)][pick(3)],
        8 | 9 => a.length = if a.length < 0 { a.length } else { (a.length + pick(SLACK / 2) as i64 - SLACK as i64 / 4).clamp(0, a.length + SLACK as i64 / 4) },
        10 => a.offset = odd(0),
        11 | 12 => a.null_count = if coin() { odd(a.null_count) } else { pick(a.length.max(0) as usize + 2) as i64 },
        13 => a.n_buffers = odd(a.n_buffers),
        14 => a.n_children = odd(a.n_children),
        15 => s.n_children = odd(s.n_children),
        16 => {
            if coin() { a.dictionary = m.array } else { s.dictionary = m.schema }
        }
        17 => a.buffers = core::ptr::null_mut(),
        18 => {
            if coin() || a.children.is_null() { a.children = core::ptr::null_mut() } else { unsafe { *a.children = core::ptr::null_mut() } }
        }
        19 => {
            if coin() || s.children.is_null() { s.children = core::ptr::null_mut() } else { unsafe { *s.children = core::ptr::null_mut() } }
        }
        k => {
            if !a.buffers.is_null() {
                let n = if a.children.is_null() || (s.format.is_null() || unsafe { *s.format.add(1) } != b'w' as c_char) { 2 } else { 1 };
                let b = unsafe { &mut *a.buffers.add(pick(n)) };
                *b = if k == 20 || b.is_null() { core::ptr::null() } else { (*b).cast::<u8>().wrapping_add(1).cast() };
            }
        }
    }
}

// ----------------------------------------------------- expected descriptions

/// What the structures exported for a layout say.
#[derive(Debug)]
pub struct Level {
    pub length: usize,
    pub nulls: usize,
    pub offset: usize,
    pub ptrs: Vec<*const c_void>,
    pub children: Vec<Level>,
}
impl Level {
    /// The offsets, other than zero, at any level.
    pub fn offsets(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.children.iter().flat_map(Level::offsets).collect();
        v.extend((self.offset != 0).then_some(self.offset));
        v
    }
}
pub trait Describe {
    fn describe(&self) -> Level;
}
fn bits<S: Buffer>(b: Option<&Bitmap<S>>) -> (*const c_void, usize, usize) {
    match b {
        None => (core::ptr::null(), 0, 0),
        Some(b) => {
            let v: &[u8] = b.buffer_ref().borrow();
            let (n, o) = (b.len(), b.bit_offset());
            (v.as_ptr().cast(), (0..n).filter(|i| !spec::bit(v, o + i)).count(), o)
        }
    }
}
impl<T: FixedSize, S: Buffer> Describe for FixedSizePrimitive<T, NonNullable, S> {
    fn describe(&self) -> Level {
        let v: &[T] = self.buffer_ref().borrow();
        Level { length: v.len(), nulls: 0, offset: 0, ptrs: vec![core::ptr::null(), v.as_ptr().cast()], children: vec![] }
    }
}
impl<T: FixedSize, S: Buffer> Describe for FixedSizePrimitive<T, Nullable, S> {
    fn describe(&self) -> Level {
        let z = self.buffer_ref();
        let v: &[T] = z.child_ref().borrow();
        let (p, nulls, offset) = bits(z.bitmap_ref());
        Level { length: z.bitmap_ref().map_or(v.len(), Length::len), nulls, offset, ptrs: vec![p, v.as_ptr().cast()], children: vec![] }
    }
}
impl<S: Buffer> Describe for Boolean<NonNullable, S> {
    fn describe(&self) -> Level {
        let (p, _, offset) = bits(Some(self.buffer_ref()));
        Level { length: self.buffer_ref().len(), nulls: 0, offset, ptrs: vec![core::ptr::null(), p], children: vec![] }
    }
}
impl<S: Buffer> Describe for Boolean<Nullable, S> {
    fn describe(&self) -> Level {
        let z = self.buffer_ref();
        let (p, nulls, offset) = bits(z.bitmap_ref());
        let (q, _, o) = bits(Some(z.child_ref()));
        Level { length: z.bitmap_ref().map_or(z.child_ref().len(), Length::len), nulls, offset: if offset == 0 { o } else { offset }, ptrs: vec![p, q], children: vec![] }
    }
}
fn list_level<O>(w: &[O], child: &impl Describe) -> Level {
    Level { length: w.len() - 1, nulls: 0, offset: 0, ptrs: vec![core::ptr::null(), w.as_ptr().cast()], children: vec![child.describe()] }
}
impl<T: ArrayItem, O: Offset, S: Buffer> Describe for VariableSizeList<T, NonNullable, O, S>
where
    T::Memory<S>: Describe,
{
    fn describe(&self) -> Level {
        let w: &[O] = self.buffer_ref().buffer_ref().borrow();
        list_level(w, self.buffer_ref().child_ref())
    }
}
impl<T: ArrayItem, O: Offset, S: Buffer> Describe for VariableSizeList<T, Nullable, O, S>
where
    T::Memory<S>: Describe,
{
    fn describe(&self) -> Level {
        let z = self.buffer_ref();
        let w: &[O] = z.child_ref().buffer_ref().borrow();
        let mut l = list_level(w, z.child_ref().child_ref());
        (l.ptrs[0], l.nulls, l.offset) = bits(z.bitmap_ref());
        l.length = z.bitmap_ref().map_or(l.length, Length::len);
        l
    }
}
impl<T: ArrayItem, const N: usize, S: Buffer> Describe for FixedSizeList<T, N, NonNullable, S>
where
    T::Memory<S>: Describe,
{
    fn describe(&self) -> Level {
        let c = self.buffer_ref().child_ref().describe();
        Level { length: c.length / N, nulls: 0, offset: 0, ptrs: vec![core::ptr::null()], children: vec![c] }
    }
}
impl<T: ArrayItem, const N: usize, S: Buffer> Describe for FixedSizeList<T, N, Nullable, S>
where
    T::Memory<S>: Describe,
{
    fn describe(&self) -> Level {
        let z = self.buffer_ref();
        let (p, nulls, offset) = bits(z.bitmap_ref());
        let c = z.child_ref().child_ref().describe();
        Level { length: z.bitmap_ref().map_or(c.length / N, Length::len), nulls, offset, ptrs: vec![p], children: vec![c] }
    }
}
impl<T: ArrayItem, S: Buffer> Describe for Array<T, S>
where
    T::Memory<S>: Describe,
{
    fn describe(&self) -> Level {
        self.buffer_ref().describe()
    }
}

pub fn schema_is(s: &RawSchema, want: &Shape) {
    let f: Vec<u8> = want.format.bytes().chain([0]).collect();
    check!(is_str(s.format, &f), "the format is the type's");
    check!(s.flags == if want.nullable { NULLABLE } else { 0 }, "the nullable flag, and no other, is the type's");
    check!(s.name.is_null() || is_str(s.name, b"\0"), "the name is empty");
    check!(s.metadata.is_null(), "no metadata");
    check!(s.dictionary.is_null(), "no dictionary schema");
    check!(s.release.is_some(), "the schema is live");
    let n = want.children.len();
    check!(s.n_children == n as i64 && (n == 0 || !s.children.is_null()), "child schemas are counted and given");
    for (i, c) in want.children.iter().enumerate() {
        schema_is(schema_child(s, i), c);
    }
}
/// `moved`: the storage keeps its items in itself, so their address changes
/// when the array is handed over.
pub fn array_is(a: &RawArray, want: &Level, moved: bool) {
    check!(usize::try_from(a.length) == Ok(want.length), "the length is the array's");
    check!(usize::try_from(a.null_count) == Ok(want.nulls), "the null count is the array's");
    check!(a.offset == 0, "the offset is zero");
    check!(a.n_buffers == want.ptrs.len() as i64 && !a.buffers.is_null(), "buffers are counted and given");
    for (i, p) in want.ptrs.iter().enumerate() {
        check!(buffer(a, i).is_null() == p.is_null(), "buffers are absent exactly where there are none");
        check!(moved || buffer(a, i) == *p, "buffers are the array's memory");
    }
    check!(a.dictionary.is_null(), "no dictionary");
    check!(a.release.is_some(), "the array is live");
    let n = want.children.len();
    check!(a.n_children == n as i64 && (n == 0 || !a.children.is_null()), "children are counted and given");
    for (i, c) in want.children.iter().enumerate() {
        array_is(child(a, i), c, moved);
    }
}
/// Items read through the C structure.
pub fn read_all<T: Item>(a: &RawArray) -> Vec<T> {
    (0..a.length as usize).map(|i| T::read(a, i)).collect()
}

// ------------------------------------------------------------------ storages

thread_local! { static DROPS: Cell<usize> = const { Cell::new(0) }; static MADE: Cell<usize> = const { Cell::new(0) }; }
/// (storages made, storages dropped) on this thread.
pub fn tokens() -> (usize, usize) {
    (MADE.with(Cell::get), DROPS.with(Cell::get))
}
struct Token(u32);
impl Token {
    fn new() -> Self {
        MADE.with(|d| d.set(d.get() + 1));
        Self(0x51AB_1E5A)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        assert!(self.0 == 0x51AB_1E5A, "OB: storage is dropped once");
        self.0 = 0;
        DROPS.with(|d| d.set(d.get() + 1));
    }
}
/// Storage on the heap that counts its drops and ruins its memory then.
#[derive(Clone, Copy, Default)]
pub struct HeapBuf;
pub struct Heap<T: FixedSize> {
    v: Box<[T]>,
    _t: Token,
}
/// As [`Heap`], with the items in the collection itself.
#[derive(Clone, Copy, Default)]
pub struct InlineBuf;
pub struct Inline<T: FixedSize> {
    a: [core::mem::MaybeUninit<T>; 256],
    n: usize,
    _t: Token,
}
fn ruin<T>(p: *mut T, n: usize) {
    for i in 0..n * size_of::<T>() {
        unsafe { p.cast::<u8>().add(i).write_volatile(0x5A) };
    }
}
impl<T: FixedSize> Drop for Heap<T> {
    fn drop(&mut self) {
        ruin(self.v.as_mut_ptr(), self.v.len());
    }
}
impl<T: FixedSize> Drop for Inline<T> {
    fn drop(&mut self) {
        ruin(self.a.as_mut_ptr(), self.n);
        self.n = 0;
    }
}
impl<T: FixedSize> Borrow<[T]> for Heap<T> {
    fn borrow(&self) -> &[T] { &self.v }
}
impl<T: FixedSize> Borrow<[T]> for Inline<T> {
    fn borrow(&self) -> &[T] { unsafe { core::slice::from_raw_parts(self.a.as_ptr().cast(), self.n) } }
}
impl<T: FixedSize> FromIterator<T> for Heap<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Self { v: i.into_iter().collect(), _t: Token::new() } }
}
impl<T: FixedSize> FromIterator<T> for Inline<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut s = Self { a: [const { core::mem::MaybeUninit::uninit() }; 256], n: 0, _t: Token::new() };
        for x in i {
            nd::assume(s.n < 256);
            s.a[s.n].write(x);
            s.n += 1;
        }
        s
    }
}
macro_rules! storage { ($b:ident, $t:ident) => {
    impl Buffer for $b {
        type For<T: FixedSize> = $t<T>;
    }
    impl<T: FixedSize> Length for $t<T> {
        fn len(&self) -> usize { let s: &[T] = self.borrow(); s.len() }
    }
    impl<T: FixedSize> Collection for $t<T> {
        type View<'c> = T;
        type Owned = T;
        fn view(&self, index: usize) -> Option<T> { let s: &[T] = self.borrow(); s.get(index).copied() }
        type Iter<'c> = core::iter::Copied<core::slice::Iter<'c, T>>;
        fn iter_views(&self) -> Self::Iter<'_> { let s: &[T] = self.borrow(); s.iter().copied() }
        type IntoIter = std::vec::IntoIter<T>;
        fn into_iter_owned(self) -> Self::IntoIter { let s: &[T] = self.borrow(); s.to_vec().into_iter() }
    }
} }
storage!(HeapBuf, Heap);
storage!(InlineBuf, Inline);
macro_rules! starts { ($c:ident: $($t:ty),*) => { $(
    impl Start for $c<$t> {
        fn start(n: usize) -> (Self, Vec<$t>) { let v: Vec<$t> = (0..n).map(|_| Gen::gen_()).collect(); (v.iter().copied().collect(), v) }
    }
)* } }
type Bx<T> = Box<[T]>;
type Ar<T> = Arc<[T]>;
type Rx<T> = Rc<[T]>;
starts!(Heap: u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
starts!(Inline: u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
starts!(Bx: u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
starts!(Ar: u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
starts!(Rx: u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
starts!(Vec: i8, i16, i32, f32);

/// Whether a storage keeps its items in itself.
pub trait Where: Buffer + 'static {
    const INSIDE: bool = false;
}
impl Where for HeapBuf {}
impl Where for InlineBuf {
    const INSIDE: bool = true;
}
impl Where for narrow::buffer::VecBuffer {}
impl Where for narrow::buffer::BoxBuffer {}
impl Where for narrow::buffer::ArcBuffer {}
impl Where for narrow::buffer::RcBuffer {}

/// `$f::<T, S>()` for one item type and storage drawn from the lists.
#[macro_export]
macro_rules! c_types { ($f:ident) => {{
    use narrow::buffer::{VecBuffer as V, BoxBuffer as B, ArcBuffer as A, RcBuffer as R};
    use $crate::cabi::{HeapBuf as H, InlineBuf as I};
    $crate::c_types!(@ $f V, B, A, R, H, I)
}};
(@ $f:ident $($s:ident),*) => {{
    let all: &[fn()] = &[ $(
        $f::<u8, $s>, $f::<i8, $s>, $f::<u16, $s>, $f::<i16, $s>, $f::<u32, $s>, $f::<i32, $s>, $f::<u64, $s>, $f::<i64, $s>, $f::<f32, $s>, $f::<f64, $s>, $f::<bool, $s>,
        $f::<Option<bool>, $s>, $f::<Option<u8>, $s>, $f::<Option<i32>, $s>, $f::<Option<f64>, $s>, $f::<Option<i16>, $s>,
        $f::<Vec<u8>, $s>, $f::<Vec<i64>, $s>, $f::<Vec<bool>, $s>, $f::<Option<Vec<i32>>, $s>, $f::<Vec<Option<u16>>, $s>, $f::<Option<Vec<Option<bool>>>, $s>,
        $f::<[u8; 1], $s>, $f::<[i32; 3], $s>, $f::<[bool; 2], $s>, $f::<Option<[u16; 2]>, $s>, $f::<[Option<f32>; 2], $s>, $f::<Option<[Option<bool>; 3]>, $s>, $f::<[u64; 11], $s>,
        $f::<Vec<Vec<u16>>, $s>, $f::<Vec<[i32; 2]>, $s>, $f::<[Vec<bool>; 2], $s>, $f::<[[u8; 2]; 3], $s>, $f::<Option<Vec<Option<[Option<u32>; 2]>>>, $s>,
        $f::<Vec<Option<Vec<Option<u8>>>>, $s>, $f::<[Option<Vec<[bool; 2]>>; 2], $s>, $f::<Option<[Option<Vec<Option<i16>>>; 2]>, $s>,
    )* ];
    all[$crate::gen_::pick(all.len())]()
}} }
/// `$f::<T>()` for one item type drawn from the list.
#[macro_export]
macro_rules! import_types { ($f:ident) => { $crate::one_of!($f;
    u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, Option<bool>, Option<u8>, Option<i32>, Option<f64>, Option<i16>, Vec<u8>, Vec<i64>, Vec<bool>, Option<Vec<i32>>, Vec<Option<u16>>, Option<Vec<Option<bool>>>, [u8; 1], [i32; 3], [bool; 2], Option<[u16; 2]>, [Option<f32>; 2], Option<[Option<bool>; 3]>, [u64; 11], Vec<Vec<u16>>, Vec<[i32; 2]>, [Vec<bool>; 2], [[u8; 2]; 3], Option<Vec<Option<[Option<u32>; 2]>>>, Vec<Option<Vec<Option<u8>>>>, [Option<Vec<[bool; 2]>>; 2], Option<[Option<Vec<Option<i16>>>; 2]>,
    [u8; 0], Option<[i32; 0]>,
) } }
/// `$f::<T>()` for one item type drawn from the list, width zero aside.
#[macro_export]
macro_rules! export_types { ($f:ident) => { $crate::one_of!($f;
    u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, Option<bool>, Option<u8>, Option<i32>, Option<f64>, Option<i16>, Vec<u8>, Vec<i64>, Vec<bool>, Option<Vec<i32>>, Vec<Option<u16>>, Option<Vec<Option<bool>>>, [u8; 1], [i32; 3], [bool; 2], Option<[u16; 2]>, [Option<f32>; 2], Option<[Option<bool>; 3]>, [u64; 11], Vec<Vec<u16>>, Vec<[i32; 2]>, [Vec<bool>; 2], [[u8; 2]; 3], Option<Vec<Option<[Option<u32>; 2]>>>, Vec<Option<Vec<Option<u8>>>>, [Option<Vec<[bool; 2]>>; 2], Option<[Option<Vec<Option<i16>>>; 2]>,
) } }
