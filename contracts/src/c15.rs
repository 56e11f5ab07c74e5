//! C15: collecting items and reading them back is the identity.

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{ArcBuffer, BoxBuffer, Buffer, BufferRef, VecBuffer},
    collection::{ChildRef, Collection, CollectionAlloc, CollectionAllocIn, CollectionRealloc, flatten::Flatten, owned::IntoOwned},
    fixed_size::FixedSizeArray,
    layout::{boolean::Boolean, fixed_size_list::FixedSizeList, fixed_size_primitive::FixedSizePrimitive, variable_size_binary::VariableSizeBinary, variable_size_list::VariableSizeList},
    length::Length,
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

// ---- wrapping a layout into an array, and taking it out, changes nothing

/// Reads of a wrapper equal the items its memory held before wrapping; then
/// the consuming step.
fn same<C: Collection>(c: C, n: usize, i: usize, at_i: Option<C::Owned>, first: Option<C::Owned>)
where
    C::Owned: PartialEq,
{
    check!(c.len() == n, "the length is unchanged");
    check!(c.is_empty() == (n == 0), "emptiness is unchanged");
    check!(c.owned(i) == at_i, "item i is unchanged");
    check!(c.view(i).map(IntoOwned::into_owned) == at_i, "the view of item i is unchanged");
    check!(c.iter_views().next().map(IntoOwned::into_owned) == first, "borrowed iteration starts with the first item");
    let mut it = c.into_iter_owned();
    check!(it.len() == n && it.size_hint() == (n, Some(n)), "consuming iteration announces the length");
    check!(it.next() == first, "consuming iteration starts with the first item");
}
fn wrap_primitive(out: bool) {
    let b = Sym::<u32>::any(38, 0);
    let (i, n): (usize, usize) = (any(), b.len());
    let (x, f) = (b.view(i), b.view(0));
    let p = b.sl().as_ptr();
    let m = FixedSizePrimitive::<u32, NonNullable, SymBuf>::from_buffer(b);
    let a = Array::<u32, SymBuf>::from_buffer(m);
    if out {
        let m = a.into_buffer();
        check!(m.len() == n && m.owned(i) == x, "the memory is unchanged");
        let b: Sym<u32> = m.into_buffer();
        check!(b.sl().as_ptr() == p && b.len() == n && b.view(i) == x, "the buffer is the same buffer");
    } else {
        let m: &FixedSizePrimitive<u32, NonNullable, SymBuf> = a.buffer_ref();
        let b: &Sym<u32> = m.buffer_ref();
        check!(b.sl().as_ptr() == p && b.len() == n, "the buffer is borrowed as it is");
        same(a, n, i, x, f);
    }
}
fn wrap_bool() {
    let (bits, offset, i): (usize, usize, usize) = (any(), any(), any());
    let Ok(b) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 0), bits, offset) else { nd::stop() };
    let x = b.view(i);
    let a = Array::<bool, SymBuf>::from_buffer(Boolean::<NonNullable, SymBuf>::from_buffer(b));
    check!(a.len() == bits && a.is_empty() == (bits == 0), "the length is unchanged");
    check!(a.owned(i) == x && a.view(i) == x, "item i is unchanged");
    check!(a.iter_views().len() == bits, "borrowed iteration announces the length");
    let b: Bitmap<SymBuf> = a.into_buffer().into_buffer();
    check!(b.len() == bits && b.view(i) == x && b.bit_offset() == offset, "the bitmap is unchanged");
}
fn wrap_nullable(stored: bool) {
    let b = Sym::<u32>::any(38, 0);
    let (i, n, offset): (usize, usize, usize) = (any(), b.len(), any());
    let v = if stored {
        let Ok(z) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 0), n, offset) else { nd::stop() };
        Validity::<Sym<u32>, SymBuf>::try_from_parts(b, z).ok().expect("OB: lengths match")
    } else {
        Validity::<Sym<u32>, SymBuf>::from_collection(b)
    };
    let x = v.view(i);
    let a = Array::<Option<u32>, SymBuf>::from_buffer(FixedSizePrimitive::<u32, Nullable, SymBuf>::from_buffer(v));
    check!(a.len() == n, "the length is unchanged");
    check!(a.owned(i) == x && a.view(i) == x, "item i is unchanged");
    let v: Validity<Sym<u32>, SymBuf> = a.into_buffer().into_buffer();
    check!(v.len() == n && v.view(i) == x && v.bitmap_ref_stored() == stored, "the nullable collection is unchanged");
}
trait Stored {
    fn bitmap_ref_stored(&self) -> bool;
}
impl<C: Collection, S: Buffer> Stored for Validity<C, S> {
    fn bitmap_ref_stored(&self) -> bool {
        use narrow::bitmap::ValidityBitmap;
        self.bitmap_ref().is_some()
    }
}
fn wrap_fixed() {
    let b = Sym::<u32>::any(38, 0);
    let (i, n): (usize, usize) = (any(), b.len());
    let m = FixedSizePrimitive::<u32, NonNullable, SymBuf>::from_buffer(b);
    let Ok(f) = Flatten::<_, 2>::try_from_parts(m) else { nd::stop() };
    let (x, y) = (f.owned(i), f.owned(0));
    let a = Array::<[u32; 2], SymBuf>::from_buffer(FixedSizeList::<u32, 2, NonNullable, SymBuf>::from_buffer(f));
    if any() {
        let f: Flatten<_, 2> = a.into_buffer().into_buffer();
        check!(f.len() == n / 2 && f.owned(i) == x, "the lists are unchanged");
    } else {
        same(a, n / 2, i, x, y);
    }
}
fn wrap_list() {
    let c = Sym::<u32>::any(38, 0);
    let (i, j, n): (usize, usize, usize) = (any(), any(), c.len());
    let b = Sym::<i32>::exact(1, 0);
    b.set(0, 0);
    let m = FixedSizePrimitive::<u32, NonNullable, SymBuf>::from_buffer(c);
    let o: Offsets<_, i32, SymBuf> = Offsets::try_from_parts(m, b).ok().expect("OB: valid offsets");
    let b: &Sym<i32> = o.buffer_ref();
    b.havoc(38, 0);
    nd::assume(b.len() >= 1);
    let lists = b.len() - 1;
    nd::assume(i < lists);
    let (s, e) = (b.pin(i), b.pin(i + 1));
    let (Ok(s), Ok(e)): (Result<usize, _>, Result<usize, _>) = (s.try_into(), e.try_into()) else { nd::stop() };
    nd::assume(s <= e && e <= n);
    let a = Array::<Vec<u32>, SymBuf>::from_buffer(VariableSizeList::<u32, NonNullable, i32, SymBuf>::from_buffer(o));
    check!(a.len() == lists, "the length is unchanged");
    let x = {
        let m: &VariableSizeList<u32, NonNullable, i32, SymBuf> = a.buffer_ref();
        let o: &Offsets<_, i32, SymBuf> = m.buffer_ref();
        let c: &FixedSizePrimitive<u32, NonNullable, SymBuf> = o.child_ref();
        if j < e - s { c.view(s + j) } else { None }
    };
    {
        let Some(v) = a.view(i) else { check!(false, "list i is readable"); return };
        check!(v.len() == e - s && v.view(j) == x, "list i is unchanged");
    }
    let o: Offsets<_, i32, SymBuf> = a.into_buffer().into_buffer();
    check!(o.len() == lists && o.view(i).is_some_and(|v| v.len() == e - s && v.view(j) == x), "the lists are unchanged");
}
/// The growth operations of wrappers act on the memory and nothing else.
fn grow_primitive() {
    let b = Sym::<u32>::any(38, 2);
    let (i, k, n, x, y): (usize, usize, usize, u32, u32) = (any(), any(), b.len(), any(), any());
    let old = b.view(i);
    let ok: bool = any();
    b.ok.set(ok);
    let mut a = Array::<u32, SymBuf>::from_buffer(FixedSizePrimitive::from_buffer(b));
    let r = a.try_reserve(k).is_ok();
    check!(!r || ok, "a refused reservation is reported");
    check!(r || !ok || k > 1 << 20, "a reservation the storage grants holds");
    check!(a.len() == n && a.view(i) == old, "a reservation changes nothing");
    let r = a.try_extend(core::iter::once(x));
    check!(r.is_ok() == ok, "a fallible append reports what the storage reports");
    let n = n + usize::from(ok);
    check!(a.len() == n && a.view(i) == if ok && i == n - 1 { Some(x) } else { old }, "the item is appended");
    a.extend(core::iter::once(y));
    check!(a.len() == n + 1 && a.view(n) == Some(y), "the item is appended");
    a.truncate(k);
    let left = if k < n + 1 { k } else { n + 1 };
    check!(a.len() == left && a.view(left).is_none(), "truncation keeps the leading items");
    if i < left && i < n && !(ok && i == n - 1) {
        check!(a.view(i) == old, "the remaining items are unchanged");
    }
}
fn grow_bool() {
    let (bits, offset, i, k, x): (usize, usize, usize, usize, u8) = (any(), any(), any(), any(), any());
    let Ok(b) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 1), bits, offset) else { nd::stop() };
    let old = b.view(i);
    let mut a = Array::<bool, SymBuf>::from_buffer(Boolean::from_buffer(b));
    a.truncate(k);
    let left = if k < bits { k } else { bits };
    check!(a.len() == left && a.view(i) == if i < left { old } else { None }, "truncation keeps the leading items");
}

// ---- collecting

fn any_items<T: nd::Any, const N: usize>() -> [T; N]
where
    [T; N]: nd::Any,
{
    any()
}
/// Every way of constructing gives the same contents.
fn build<C: CollectionAllocIn<Alloc = ()> + FromIterator<C::Owned>, I: Iterator<Item = C::Owned>>(how: usize, src: I) -> C {
    match how {
        0 => src.collect(),
        1 => C::from_iter_in(src, ()),
        _ => C::try_from_iter_in(src, ()).ok().expect("OB: a fallible collect with room succeeds"),
    }
}
fn collect_u32(how: usize) {
    let v: [u32; 3] = any_items();
    let a: Array<u32, AvBuf> = build(how, v.into_iter());
    check!(a.len() == 3, "as many items as the sequence");
    let mut i = 0;
    while i < 3 {
        check!(a.view(i) == Some(v[i]) && a.owned(i) == Some(v[i]), "item i is the i-th item");
        i += 1;
    }
    check!(a.view(3).is_none(), "nothing beyond the end");
    let mut it = a.into_iter_owned();
    let mut i = 0;
    while i < 3 {
        check!(it.next() == Some(v[i]), "consumed item i is the i-th item");
        i += 1;
    }
    check!(it.next().is_none(), "nothing beyond the end");
}
fn collect_bool(how: usize) {
    let v: u64 = any();
    let a: Array<bool, AvBuf> = build(how, Bools { bits: v, i: 0, n: 9 });
    check!(a.len() == 9, "as many items as the sequence");
    let mut i = 0;
    while i < 9 {
        check!(a.view(i) == Some((v >> i) & 1 == 1), "item i is the i-th item");
        i += 1;
    }
    check!(a.view(9).is_none(), "nothing beyond the end");
}
/// Nullable items: `mask` says which are present.
fn collect_nullable(how: usize, mask: usize) {
    let v: [u32; 3] = any_items();
    let w = [0, 1, 2].map(|i| if mask >> i & 1 == 1 { Some(v[i]) } else { None });
    let a: Array<Option<u32>, AvBuf> = build(how, w.into_iter());
    check!(a.len() == 3, "as many items as the sequence");
    let mut i = 0;
    while i < 3 {
        check!(a.view(i) == Some(w[i]), "item i is the i-th item");
        i += 1;
    }
    check!(a.view(3).is_none(), "nothing beyond the end");
    let z: Validity<Av<u32>, AvBuf> = a.into_buffer().into_buffer();
    let c: &Av<u32> = z.child_ref();
    let mut i = 0;
    while i < 3 {
        check!(c.view(i) == Some(w[i].unwrap_or(0)), "absent items are stored as the default");
        i += 1;
    }
}
fn collect_fixed(how: usize) {
    let v: [[u32; 2]; 2] = any_items();
    let a: Array<[u32; 2], AvBuf> = build(how, v.into_iter());
    check!(a.len() == 2, "as many items as the sequence");
    check!(a.owned(0) == Some(v[0]) && a.owned(1) == Some(v[1]), "item i is the i-th item");
    check!(a.view(2).is_none(), "nothing beyond the end");
}
fn collect_list(how: usize) {
    let v: [u32; 3] = any_items();
    let a: Array<Vec<u32>, AvBuf> = build(how, [vec![v[0], v[1]], vec![], vec![v[2]]].into_iter());
    check!(a.len() == 3, "as many items as the sequence");
    let (Some(x), Some(y), Some(z)) = (a.view(0), a.view(1), a.view(2)) else { check!(false, "every list is readable"); return };
    check!(x.len() == 2 && x.view(0) == Some(v[0]) && x.view(1) == Some(v[1]) && x.view(2).is_none(), "list 0 is the first list");
    check!(y.len() == 0 && y.view(0).is_none(), "list 1 is empty");
    check!(z.len() == 1 && z.view(0) == Some(v[2]) && z.view(1).is_none(), "list 2 is the third list");
    check!(a.view(3).is_none(), "nothing beyond the end");
}

obligations! { "C15";
    proof c15_wrap_primitive [4] "Array and FixedSizePrimitive over any buffer: reads and consuming iteration are those of the buffer" { wrap_primitive(false) }
    proof c15_unwrap_primitive [4] "Array and FixedSizePrimitive over any buffer: taken out unchanged" { wrap_primitive(true) }
    proof c15_wrap_bool [4] "Array and Boolean over any bitmap: reads, taken out unchanged" { wrap_bool() }
    proof c15_wrap_nullable [4] "Array and FixedSizePrimitive over any nullable values: reads, taken out unchanged" { wrap_nullable(true) }
    proof c15_wrap_nullable_absent [4] "Array and FixedSizePrimitive over any values without bitmap: reads, taken out unchanged" { wrap_nullable(false) }
    proof c15_wrap_fixed [10] "Array and FixedSizeList over any child: reads, consuming iteration, taken out unchanged" { wrap_fixed() }
    proof c15_wrap_list [4] "Array and VariableSizeList over any lists: reads, taken out unchanged" { wrap_list() }
    proof c15_grow_primitive [4] "Array and FixedSizePrimitive: reservation, appends and truncation act on the memory, any buffer" { grow_primitive() }
    proof c15_grow_bool [4] "Array and Boolean: truncation acts on the memory, any bitmap" { grow_bool() }
    bounded c15_u32_0 [5] "collect 3 integers" { collect_u32(0) }
    bounded c15_u32_1 [5] "collect 3 integers with an allocator" { collect_u32(1) }
    bounded c15_u32_2 [5] "fallible collect of 3 integers" { collect_u32(2) }
    bounded c15_bool_0 [11] "collect 9 booleans" { collect_bool(0) }
    bounded c15_bool_1 [11] "collect 9 booleans with an allocator" { collect_bool(1) }
    bounded c15_bool_2 [11] "fallible collect of 9 booleans" { collect_bool(2) }
    bounded c15_nullable_0 [11] "collect 3 nullable integers, two absent" { collect_nullable(0, 0b010) }
    bounded c15_nullable_1 [11] "collect 3 nullable integers with an allocator, one absent" { collect_nullable(1, 0b101) }
    bounded c15_nullable_2 [11] "fallible collect of 3 nullable integers, one absent" { collect_nullable(2, 0b110) }
    bounded c15_fixed_0 [10] "collect 2 fixed-size lists" { collect_fixed(0) }
    bounded c15_fixed_1 [10] "collect 2 fixed-size lists with an allocator" { collect_fixed(1) }
    bounded c15_fixed_2 [10] "fallible collect of 2 fixed-size lists" { collect_fixed(2) }
    bounded c15_list_0 [5] "collect 3 lists" { collect_list(0) }
    bounded c15_list_1 [5] "collect 3 lists with an allocator" { collect_list(1) }
    bounded c15_list_2 [5] "fallible collect of 3 lists" { collect_list(2) }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_::*;
    use std::sync::Arc;

    impl<T: Gen + narrow::fixed_size::FixedSize, const N: usize> Gen for FixedSizeArray<T, N> {
        fn gen_() -> Self { <[T; N]>::gen_().into() }
        fn simple() -> Self { Self::gen_() }
    }
    fn how_long() -> usize {
        if pick(40) == 0 { 1020 + pick(1100) } else { some_len() }
    }
    pub fn collects<C: CollectionAllocIn<Alloc = ()> + FromIterator<C::Owned>>()
    where
        C::Owned: Gen,
    {
        let v: Vec<C::Owned> = (0..how_long()).map(|_| Gen::gen_()).collect();
        let src = Hinted { v: v.clone().into_iter(), lie: pick(3) };
        let c: C = build(pick(3), src);
        reads(&c, &v);
        consume(c, &v);
    }
    pub fn grows<C: CollectionRealloc<Alloc = ()>>()
    where
        C::Owned: Gen,
    {
        let v: Vec<C::Owned> = (0..some_len()).map(|_| Gen::gen_()).collect();
        let mut c = C::with_capacity_in(pick(9), ());
        let mut m = Vec::new();
        for part in v.chunks(1 + pick(9)) {
            append(&mut c, &mut m, part.to_vec());
        }
        reads(&c, &v);
        consume(c, &v);
    }
    pub fn boxed() {
        type B = BoxBuffer;
        crate::one_of!(collects;
            Array<u32, B>, Array<f64, B>, Array<bool, B>, Array<[u32; 2], B>, Array<[bool; 3], B>, Array<[[u8; 2]; 2], B>, Array<FixedSizeArray<u16, 3>, B>,
            Box<[u32]>, Bitmap<B>, Vec<u64>, Array<[FixedSizeArray<u8, 2>; 2], B>, Flatten<Box<[u16]>, 2>, Flatten<Bitmap<B>, 3>,
        )
    }
    pub fn more() {
        crate::one_of!(collects;
            Array<FixedSizeArray<u8, 4>>, Array<Option<FixedSizeArray<u8, 4>>>, Array<Vec<FixedSizeArray<i32, 2>>>, Array<Option<[FixedSizeArray<i16, 2>; 2]>>,
            VariableSizeBinary, VariableSizeBinary<Nullable>, VariableSizeBinary<NonNullable, i64>, VariableSizeBinary<Nullable, i64>,
            Array<u8>, Array<u16>, Array<u64>, Array<i8>, Array<i16>, Array<i32>, Array<i64>,
            Array<Option<Vec<Option<[Option<Vec<Option<bool>>>; 2]>>>>, Array<[Option<[Option<[bool; 2]>; 2]>; 2]>, Array<Vec<Vec<Vec<bool>>>>, Array<Option<[Vec<Option<u16>>; 3]>>,
            Array<Vec<Option<Vec<Option<[u8; 3]>>>>>, Array<[Vec<[Option<bool>; 2]>; 2]>,
        )
    }
    /// Values stored for absent items are the default.
    fn defaults<C: Collection<Owned: PartialEq + Default + Clone>>(z: &Validity<C, VecBuffer>, want: &[Option<C::Owned>])
    where
        C::Owned: core::fmt::Debug,
    {
        check!(z.child_ref().len() == want.len(), "one stored value for each item");
        for (i, w) in want.iter().enumerate() {
            check!(z.child_ref().owned(i) == Some(w.clone().unwrap_or_default()), "absent items are stored as the default");
        }
    }
    pub fn default_values() {
        fn some<T: Gen>() -> Vec<Option<T>> { (0..some_len()).map(|_| Gen::gen_()).collect() }
        let how = pick(3);
        let lie = pick(3);
        macro_rules! t { ($t:ty) => {{
            let v: Vec<Option<$t>> = some();
            let a: Array<Option<$t>> = build(how, Hinted { v: v.clone().into_iter(), lie });
            defaults(&a.into_buffer().into_buffer(), &v);
        }} }
        match pick(6) {
            0 => t!(u32),
            1 => t!(bool),
            2 => t!(Vec<u8>),
            3 => t!([u16; 2]),
            4 => t!([Option<bool>; 3]),
            _ => t!(Vec<Option<u32>>),
        }
    }
    /// Wrapping and taking out over every layout.
    pub fn wraps<C: Start>()
    where
        C: BufferRef,
        C::Owned: Gen,
        C::Buffer: Collection<Owned = C::Owned>,
    {
        let (c, m) = C::start(some_len());
        reads(c.buffer_ref(), &m);
        reads(&c, &m);
        consume(c, &m);
    }
    pub fn wrap_all() {
        type A = AvBuf;
        crate::one_of!(wraps;
            Array<u32>, Array<bool>, Array<Option<bool>>, Array<Option<u64>>, Array<Vec<u32>>, Array<Option<Vec<Option<bool>>>>, Array<[Option<u32>; 3]>, Array<Option<[bool; 2]>>,
            Array<Vec<[Option<Vec<u8>>; 2]>>, Array<u32, A>, Array<bool, A>, Array<Option<bool>, A>, Array<Option<u64>, A>, Array<Vec<u32>, A>, Array<[Option<u32>; 3], A>,
            FixedSizePrimitive<u16>, FixedSizePrimitive<u16, Nullable>, Boolean, Boolean<Nullable>, VariableSizeList<u8, Nullable, i64>, VariableSizeList<bool, NonNullable, i64>,
            FixedSizeList<u32, 3>, FixedSizeList<bool, 2, Nullable>, FixedSizeList<Option<Vec<u8>>, 2, Nullable>,
        )
    }
}

runs! { "C15";
    c15_run_a "sixty collection types: collect by every constructor, sources announcing exact, low and loose bounds" { crate::gen_::reseed(); crate::growables!(collect_any) }
    c15_run_b "sixty collection types: collect by every constructor (second stream)" { crate::gen_::reseed(); crate::growables!(collect_any) }
    c15_run_grow "sixty collection types: an empty collection with capacity, filled in parts" { crate::gen_::reseed(); crate::growables!(grow_any) }
    c15_run_boxed "boxed storage" { crate::gen_::reseed(); native::boxed() }
    c15_run_more "fixed-width arrays, binary, every integer, deeper nesting" { crate::gen_::reseed(); native::more() }
    c15_run_default "stored values of absent items" { crate::gen_::reseed(); native::default_values() }
    c15_run_wrap "wrapping and taking out, every layout from raw parts" { crate::gen_::reseed(); native::wrap_all() }
}
#[cfg(not(kani))]
use native::{collects as collect_any, grows as grow_any};
