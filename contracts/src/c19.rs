//! C19: exporting and importing gives back the same array.

use core::borrow::Borrow;

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{BufferRef, SliceBuffer},
    collection::{ChildRef, Collection, flatten::Flatten},
    layout::{ArrayItem, boolean::Boolean, fixed_size_list::FixedSizeList, fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList},
    length::Length,
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};
use narrow_ffi::{ArrowArray, ArrowSchema, ArrowType, Export, Import, ImportError};

use crate::{ffi::*, nd, nd::any, store::*};

type Prim<T> = FixedSizePrimitive<T, NonNullable, SymBuf>;
type Bm = Bitmap<SymBuf>;

fn back<'a, T: ArrayItem>(x: &'a (ArrowArray, ArrowSchema)) -> Result<Array<T, SliceBuffer<'a>>, ImportError>
where
    Array<T, SliceBuffer<'a>>: Import<'a>,
{
    unsafe { Import::import(&x.0, &x.1) }
}
fn primitive<T: AnyItem + ArrowType + PartialEq>()
where
    T: ArrayItem + for<'v> narrow::collection::view::AsView<'v, View = T>,
    T: ArrayItem<Memory<SymBuf> = Prim<T>>,
    for<'a> T: ArrayItem<Memory<SliceBuffer<'a>> = FixedSizePrimitive<T, NonNullable, SliceBuffer<'a>>>,
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let v = Sym::<T>::any(36, 0);
    let (n, i) = (v.len(), any::<usize>());
    let want = if i < n { Some(v.pin(i)) } else { None };
    let x = Array::<T, SymBuf>::from_buffer(Prim::from_buffer(v)).export().ok().expect("OB: exported");
    let y = back::<T>(&x).ok().expect("OB: what was exported can be imported");
    let w: &[T] = y.buffer_ref().buffer_ref().borrow();
    check!(y.len() == n && w.len() == n, "the length is the same");
    match want {
        Some(t) => check!(w[i].same(&t), "item i is the same"),
        None => check!(i >= n, "items beyond the end are absent"),
    }
}
/// Equality of representation.
trait Same {
    fn same(&self, o: &Self) -> bool;
}
impl<T: Copy> Same for T {
    fn same(&self, o: &Self) -> bool {
        let (p, q) = (core::ptr::from_ref(self).cast::<u8>(), core::ptr::from_ref(o).cast::<u8>());
        let mut k = 0;
        while k < size_of::<T>() {
            if unsafe { *p.add(k) != *q.add(k) } {
                return false;
            }
            k += 1;
        }
        true
    }
}
fn boolean() {
    let n: usize = any();
    let Ok(b) = Bm::try_from_parts(Sym::any(36, 0), n, 0) else { return };
    let i: usize = any();
    let v: &Sym<u8> = b.buffer_ref();
    let want = if i < n { Some(v.pin(i / 8) >> (i % 8) & 1 == 1) } else { None };
    let x = Array::<bool, SymBuf>::from_buffer(Boolean::from_buffer(b)).export().ok().expect("OB: exported");
    let y = back::<bool>(&x).ok().expect("OB: what was exported can be imported");
    check!(y.len() == n, "the length is the same");
    check!(y.view(i) == want, "item i is the same");
    check!(back::<u8>(&x).is_err(), "another type is refused");
    check!(back::<Option<bool>>(&x).is_err(), "another nullability is refused");
}
fn nullable_absent() {
    let v = Sym::<i32>::any(36, 0);
    let (n, i) = (v.len(), any::<usize>());
    let want = if i < n { Some(Some(v.pin(i))) } else { None };
    let z = Validity::from_collection(v);
    let x = Array::<Option<i32>, SymBuf>::from_buffer(FixedSizePrimitive::from_buffer(z)).export().ok().expect("OB: exported");
    let y = back::<Option<i32>>(&x).ok().expect("OB: what was exported can be imported");
    check!(y.len() == n, "the length is the same");
    check!(y.owned(i) == want, "item i is the same");
    check!(back::<i32>(&x).is_err() && back::<Option<u32>>(&x).is_err() && back::<Option<i64>>(&x).is_err(), "another type or nullability is refused");
}
/// Nullable values with a validity of `B` bytes.
fn nullable<const B: usize>() {
    let n = nd::below(B * 8 + 1);
    let v = Sym::<u16>::exact(n, 0);
    let m = Sym::<u8>::exact(B, 0);
    let mut k = 0;
    while k < B {
        m.pin(k);
        k += 1;
    }
    let i: usize = any();
    let want = if i < n { Some((m.at(i / 8) >> (i % 8) & 1 == 1).then_some(v.pin(i))) } else { None };
    let z = Validity::try_from_parts(v, Bm::try_from_parts(m, n, 0).ok().expect("OB: fits")).ok().expect("OB: lengths match");
    let x = Array::<Option<u16>, SymBuf>::from_buffer(FixedSizePrimitive::from_buffer(z)).export().ok().expect("OB: exported");
    let y = back::<Option<u16>>(&x).ok().expect("OB: what was exported can be imported");
    check!(y.len() == n, "the length is the same");
    check!(y.owned(i) == want, "item i is the same");
    check!(back::<u16>(&x).is_err() && back::<Option<i16>>(&x).is_err(), "another type or nullability is refused");
}
fn fixed() {
    let v = Sym::<u16>::any(36, 0);
    let n = v.len();
    let Ok(f) = Flatten::<Prim<u16>, 3>::try_from_parts(Prim::from_buffer(v)) else { return };
    let i: usize = any();
    let t: &Sym<u16> = f.child_ref().buffer_ref();
    let want = if i < n / 3 { Some([t.pin(3 * i), t.pin(3 * i + 1), t.pin(3 * i + 2)]) } else { None };
    let x = Array::<[u16; 3], SymBuf>::from_buffer(FixedSizeList::from_buffer(f)).export().ok().expect("OB: exported");
    let y = back::<[u16; 3]>(&x).ok().expect("OB: what was exported can be imported");
    check!(y.len() == n / 3, "the length is the same");
    let c: &[u16] = y.buffer_ref().buffer_ref().child_ref().buffer_ref().borrow();
    match want {
        Some(w) => check!(c[3 * i] == w[0] && c[3 * i + 1] == w[1] && c[3 * i + 2] == w[2], "item i is the same"),
        None => check!(i >= n / 3, "items beyond the end are absent"),
    }
    check!(back::<[u16; 2]>(&x).is_err() && back::<[i16; 3]>(&x).is_err() && back::<Vec<u16>>(&x).is_err(), "another type is refused");
    check!(back::<Option<[u16; 3]>>(&x).is_err() && back::<[Option<u16>; 3]>(&x).is_err(), "another nullability is refused");
}
fn list(lists: usize) {
    let v = Sym::<u16>::any(36, 0);
    let n = v.len();
    let w = Sym::<i32>::exact(lists + 1, 0);
    let mut k = 0;
    while k <= lists {
        w.pin(k);
        k += 1;
    }
    let o: [i32; 4] = core::array::from_fn(|k| if k <= lists { w.at(k) } else { 0 });
    let Ok(o2) = Offsets::<_, i32, SymBuf, Vec<u16>>::try_from_parts(Prim::from_buffer(v), w) else { return };
    let x = Array::<Vec<u16>, SymBuf>::from_buffer(VariableSizeList::from_buffer(o2)).export().ok().expect("OB: exported");
    let y = back::<Vec<u16>>(&x).ok().expect("OB: what was exported can be imported");
    check!(y.len() == lists, "the length is the same");
    let z = y.buffer_ref().buffer_ref();
    let q: &[i32] = z.buffer_ref().borrow();
    let mut k = 0;
    while k <= lists {
        check!(q[k] == o[k], "the lists are the same");
        k += 1;
    }
    let c: &[u16] = z.child_ref().buffer_ref().borrow();
    check!(c.len() == n, "the items are the same");
    check!(back::<Vec<i16>>(&x).is_err() && back::<[u16; 1]>(&x).is_err() && back::<u16>(&x).is_err(), "another type is refused");
    check!(back::<Option<Vec<u16>>>(&x).is_err() && back::<Vec<Option<u16>>>(&x).is_err(), "another nullability is refused");
}

obligations! { "C19";
    proof_sd c19_u8 [4] "any bytes" { primitive::<u8>() }
    proof_sd c19_i32 [6] "any 32-bit values" { primitive::<i32>() }
    proof_sd c19_u64 [10] "any 64-bit values" { primitive::<u64>() }
    proof_sd c19_f64 [10] "any doubles" { primitive::<f64>() }
    proof_sd c19_boolean [4] "any packed booleans at the start of a byte" { boolean() }
    proof_sd c19_nullable_absent [4] "any nullable values without a bitmap" { nullable_absent() }
    proof_sd c19_fixed [8] "any lists of 3 values" { fixed() }
    bounded_sd c19_nullable_1 [10] "up to 8 nullable values, every validity" { nullable::<1>() }
    bounded_sd c19_list_2 [6] "2 lists, any offsets and any child" { list(2) }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::{cabi::*, gen_::*, store::Hinted};
    use std::panic::{AssertUnwindSafe, catch_unwind};

    pub fn rounds<T: Item + ArrayItem, S: Where>()
    where
        T::Memory<S>: Start + Describe,
        Array<T, S>: Start + Export + Collection<Owned = T>,
        for<'a> T::Memory<SliceBuffer<'a>>: Describe,
        for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    {
        let (x, m) = <Array<T, S> as Start>::start(some_len());
        let zero = x.describe().offsets().is_empty();
        let r = x.export();
        check!(r.is_ok() == zero, "arrays without an offset can be exported");
        if let Ok(x) = r {
            again::<T>(&x, &m);
        }
    }
    fn again<T: Item + ArrayItem>(x: &(ArrowArray, ArrowSchema), m: &[T])
    where
        for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    {
        let y = back::<T>(x);
        check!(y.is_ok(), "what was exported can be imported");
        let y = y.ok().unwrap();
        reads(&y, m);
        consume(y, m);
        for k in 0..3 {
            OTHER.with(|o| o.set((Some(T::shape()), core::ptr::from_ref(x))));
            let _ = k;
            crate::import_types!(refuses);
        }
    }
    thread_local! { static OTHER: core::cell::Cell<(Option<Shape>, *const (ArrowArray, ArrowSchema))> = const { core::cell::Cell::new((None, core::ptr::null())) }; }
    fn refuses<U: Item + ArrayItem>()
    where
        for<'a> Array<U, SliceBuffer<'a>>: Import<'a> + Collection<Owned = U>,
    {
        let (shape, x) = OTHER.with(|o| o.replace((None, core::ptr::null())));
        if shape != Some(U::shape()) {
            check!(back::<U>(unsafe { &*x }).is_err(), "another type or nullability is refused");
        }
    }
    /// Arrays filled, truncated and possibly left behind by a source that panicked.
    pub fn histories<T: Item + ArrayItem>()
    where
        T::Memory<narrow::buffer::VecBuffer>: Describe,
        Array<T>: Export + narrow::collection::CollectionRealloc<Alloc = ()> + Collection<Owned = T>,
        for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    {
        use narrow::collection::CollectionRealloc;
        let mut c: Array<T> = narrow::collection::CollectionAllocIn::with_capacity_in(pick(9), ());
        for _ in 0..1 + pick(4) {
            let add: Vec<T> = (0..some_len()).map(|_| Gen::gen_()).collect();
            match pick(4) {
                0 => c.truncate(pick(20)),
                1 => {
                    let mut left = pick(add.len() + 1);
                    let src = add.into_iter().map(|x| {
                        if left == 0 {
                            std::panic::panic_any(Stop);
                        }
                        left -= 1;
                        x
                    });
                    let _ = catch_unwind(AssertUnwindSafe(|| if coin() { c.extend(src) } else { let _ = c.try_extend(src); }));
                }
                2 => c.extend(add),
                _ => {
                    let _ = c.try_extend(Hinted { v: add.into_iter(), lie: pick(3) });
                }
            }
        }
        let n = c.len();
        let m: Vec<T> = (0..n).map(|i| c.owned(i).expect("OB: items below the length are readable")).collect();
        let x = c.export();
        check!(x.is_ok(), "arrays without an offset can be exported");
        again::<T>(&x.ok().unwrap(), &m);
    }
    struct Stop;
}
#[cfg(not(kani))]
use native::{histories, rounds};

runs! { "C19";
    c19_run_a "37 item types in 6 storages, any offsets: read back, refused as other types" { crate::gen_::reseed(); crate::c_types!(rounds) }
    c19_run_b "the same, second stream" { crate::gen_::reseed(); crate::c_types!(rounds) }
    c19_run_histories "37 item types: arrays built by histories of appends, truncations and sources that panic" { crate::gen_::reseed(); crate::export_types!(histories) }
}
