//! C20: exported memory is owned once and released exactly once.

use core::{borrow::Borrow, ptr};

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{Buffer, BufferRef},
    collection::{Collection, flatten::Flatten},
    fixed_size::FixedSize,
    layout::{ArrayItem, boolean::Boolean, fixed_size_list::FixedSizeList, fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList},
    length::Length,
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};
use narrow_ffi::{ArrowArray, ArrowSchema, Export, ExportError};

use crate::{ffi::*, nd, nd::any, store::*};

/// Storage of any length that counts the times it is dropped.
#[derive(Clone, Copy, Debug, Default)]
pub struct CountBuf;
pub struct Count<T: FixedSize>(Sym<T>);
static mut DROPPED: usize = 0;
#[cfg(not(kani))]
thread_local! { static TDROPPED: core::cell::Cell<usize> = const { core::cell::Cell::new(0) }; }
#[cfg(kani)]
fn dropped() -> usize {
    unsafe { DROPPED }
}
#[cfg(not(kani))]
fn dropped() -> usize {
    TDROPPED.with(core::cell::Cell::get)
}
fn set_dropped(n: usize) {
    #[cfg(kani)]
    unsafe {
        DROPPED = n;
    }
    #[cfg(not(kani))]
    TDROPPED.with(|d| d.set(n));
}
impl<T: FixedSize> Drop for Count<T> {
    fn drop(&mut self) {
        set_dropped(dropped() + 1);
    }
}
impl Buffer for CountBuf {
    type For<T: FixedSize> = Count<T>;
}
impl<T: FixedSize> Length for Count<T> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl<T: FixedSize> Borrow<[T]> for Count<T> {
    fn borrow(&self) -> &[T] {
        self.0.sl()
    }
}
impl<T: FixedSize> Collection for Count<T> {
    type View<'c> = T;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        if index < self.len() { Some(self.0.sl()[index]) } else { None }
    }
    type Iter<'c> = core::iter::Copied<core::slice::Iter<'c, T>>;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.0.sl().iter().copied()
    }
    type IntoIter = core::iter::Empty<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        core::iter::empty()
    }
}

fn array_cleared(a: &RawArray) {
    check!(a.release.is_none(), "a released array is marked");
    check!(a.private_data.is_null() && a.buffers.is_null() && a.children.is_null() && a.dictionary.is_null(), "a released array points to nothing freed");
}
fn schema_cleared(s: &RawSchema) {
    check!(s.release.is_none(), "a released schema is marked");
    check!(s.private_data.is_null() && s.children.is_null() && s.dictionary.is_null(), "a released schema points to nothing freed");
}
/// Releases the array by its callback, or by dropping it. `owns` storages are
/// freed by it, and nothing else.
fn release_a(mut a: RawArray, owns: usize) {
    let had = dropped();
    if any() {
        release_array(&mut a);
        array_cleared(&a);
        check!(dropped() == had + owns, "releasing frees what the array owns, once");
        drop(back_array(a));
    } else {
        drop(back_array(a));
    }
    check!(dropped() == had + owns, "what the array owns is freed exactly once");
}
fn release_s(mut s: RawSchema) {
    let had = dropped();
    if any() {
        release_schema(&mut s);
        schema_cleared(&s);
    }
    drop(back_schema(s));
    check!(dropped() == had, "releasing the schema frees nothing of the array");
}
/// Structures of a flat type, moved, used and released in any order.
fn life(a: ArrowArray, s: ArrowSchema, owns: usize, format: &[u8], values: *const u8, validity: *const u8) {
    let (a, s) = (moved_array(a), moved_schema(s));
    check!(dropped() == 0, "nothing is freed while the structures are live");
    let uses_a = |a: &RawArray| {
        check!(buffer(a, 1).cast() == values && buffer(a, 0).cast() == validity, "buffers stay valid and unmoved");
    };
    let uses_s = |s: &RawSchema| check!(is_str(s.format, format) && is_str(s.name, b"\0"), "format and name stay valid");
    if any() {
        uses_s(&s);
        release_s(s);
        check!(dropped() == 0, "the array stays live");
        uses_a(&a);
        release_a(a, owns);
    } else {
        uses_a(&a);
        release_a(a, owns);
        uses_s(&s);
        release_s(s);
    }
}
fn values<T: FixedSize>(v: Sym<T>) -> (Count<T>, *const u8, usize) {
    let (p, n) = (v.sl().as_ptr().cast(), v.len());
    (Count(v), p, n)
}
fn flat() {
    set_dropped(0);
    let (v, p, _) = values(Sym::<i32>::any(36, 0));
    let (a, s) = Array::<i32, CountBuf>::from_buffer(FixedSizePrimitive::from_buffer(v)).export().ok().expect("OB: exported");
    life(a, s, 1, b"i\0", p, ptr::null());
}
/// Booleans, which a failed export frees too.
fn bits() {
    set_dropped(0);
    let (v, p, _) = values(Sym::<u8>::any(36, 0));
    let Ok(b) = Bitmap::<CountBuf>::try_from_parts(v, any(), any()) else { return };
    set_dropped(0);
    match Array::<bool, CountBuf>::from_buffer(Boolean::from_buffer(b)).export() {
        Ok((a, s)) => life(a, s, 1, b"b\0", p, ptr::null()),
        Err(_) => check!(dropped() == 1, "a failed export frees the array"),
    }
}
fn nullable() {
    set_dropped(0);
    let (v, p, n) = values(Sym::<u16>::exact(nd::below(9), 0));
    let m = Sym::<u8>::exact(1, 0);
    m.pin(0);
    let (m, q, _) = values(m);
    let Ok(b) = Bitmap::<CountBuf>::try_from_parts(m, n, any()) else { return };
    let z = Validity::try_from_parts(v, b).ok().expect("OB: lengths match");
    match Array::<Option<u16>, CountBuf>::from_buffer(FixedSizePrimitive::from_buffer(z)).export() {
        Ok((a, s)) => life(a, s, 2, b"S\0", p, q),
        Err(_) => check!(dropped() == 2, "a failed export frees the array"),
    }
}
/// A level with a child: the child is dropped with its parent, once. The
/// destructor of the child is replaced by one that counts: what it does is the
/// contract `c20_drop` and the contracts of its own level.
fn parent(a: ArrowArray, s: ArrowSchema, owns: usize, format: &[u8]) {
    let (mut a, mut s) = (moved_array(a), moved_schema(s));
    check!(dropped() == 0 && counted() == (0, 0), "nothing is freed while the structures are live");
    let (ca, cs) = (child(&a, 0), schema_child(&s, 0));
    check!(ca.release.is_some() && cs.release.is_some(), "children are live");
    let (pa, ps): (*const RawArray, *const RawSchema) = (ca, cs);
    let first: bool = any();
    let mut turn = 0;
    while turn < 2 {
        if first == (turn == 0) {
            check!(is_str(s.format, format), "the format stays valid");
            check!(ptr::eq(schema_child(&s, 0), ps) && schema_child(&s, 0).release.is_some(), "the child schema stays where it is");
            let had = counted();
            release_schema(&mut s);
            schema_cleared(&s);
            check!(counted() == (had.0, had.1 + 1), "the child schema is released with its parent, once");
        } else {
            check!(ptr::eq(child(&a, 0), pa) && child(&a, 0).release.is_some(), "the child stays where it is");
            check!(dropped() == 0, "the storage stays until the array is released");
            let had = counted();
            release_array(&mut a);
            array_cleared(&a);
            check!(counted() == (had.0 + 1, had.1), "the child is released with its parent, once");
            check!(dropped() == owns, "the storage is freed exactly once");
        }
        turn += 1;
    }
    check!(dropped() == owns && counted() == (1, 1), "everything is freed exactly once");
}
static mut COUNTED: (usize, usize) = (0, 0);
fn counted() -> (usize, usize) {
    unsafe { COUNTED }
}
pub fn count_array(a: &mut ArrowArray) {
    if !a.is_released() {
        unsafe { COUNTED.0 += 1 };
    }
}
pub fn count_schema(s: &mut ArrowSchema) {
    if !s.is_released() {
        unsafe { COUNTED.1 += 1 };
    }
}
#[cfg(kani)]
fn list() {
    set_dropped(0);
    let (v, _, n) = values(Sym::<u32>::any(36, 0));
    let w = Sym::<i32>::exact(2, 0);
    w.set(0, 0);
    w.pin(1);
    let (w, _, _) = values(w);
    let Ok(o) = Offsets::<_, i32, CountBuf, Vec<u32>>::try_from_parts(FixedSizePrimitive::<u32, NonNullable, CountBuf>::from_buffer(v), w) else { return };
    let (a, s) = Array::<Vec<u32>, CountBuf>::from_buffer(VariableSizeList::from_buffer(o)).export().ok().expect("OB: exported");
    parent(a, s, 2, b"+l\0");
}
#[cfg(kani)]
fn fixed() {
    set_dropped(0);
    let (v, _, n) = values(Sym::<u32>::any(36, 0));
    let Ok(f) = Flatten::<FixedSizePrimitive<u32, NonNullable, CountBuf>, 3>::try_from_parts(FixedSizePrimitive::from_buffer(v)) else { return };
    let (a, s) = Array::<[u32; 3], CountBuf>::from_buffer(FixedSizeList::from_buffer(f)).export().ok().expect("OB: exported");
    parent(a, s, 1, b"+w:3\0");
}
/// The child of a list is released by its own callback, before its parent.
#[cfg(kani)]
fn lone_child() {
    set_dropped(0);
    let (v, _, n) = values(Sym::<u32>::any(36, 0));
    let w = Sym::<i32>::exact(1, 0);
    w.set(0, 0);
    let (w, _, _) = values(w);
    let o = Offsets::<_, i32, CountBuf, Vec<u32>>::try_from_parts(FixedSizePrimitive::<u32, NonNullable, CountBuf>::from_buffer(v), w).ok().expect("OB: one zero offset is valid");
    let (a, s) = Array::<Vec<u32>, CountBuf>::from_buffer(VariableSizeList::from_buffer(o)).export().ok().expect("OB: exported");
    let (mut a, mut s) = (moved_array(a), moved_schema(s));
    let c = unsafe { &mut **a.children };
    release_array(c);
    array_cleared(c);
    check!(dropped() == 0, "releasing a child frees nothing of its parent");
    let d = unsafe { &mut **s.children };
    release_schema(d);
    check!(d.release.is_none(), "a released schema is marked");
    release_array(&mut a);
    release_schema(&mut s);
    check!(dropped() == 2 && counted() == (0, 0), "a released child is not released again");
}
/// A failed export of a list frees both levels.
fn refused() {
    set_dropped(0);
    let (v, _, _) = values(Sym::<u8>::any(36, 0));
    let offset: usize = any();
    nd::assume(offset != 0);
    let Ok(b) = Bitmap::<CountBuf>::try_from_parts(v, any(), offset) else { return };
    set_dropped(0);
    let w = Sym::<i32>::exact(1, 0);
    w.set(0, 0);
    let o = Offsets::<_, i32, CountBuf, Vec<bool>>::try_from_parts(Boolean::<NonNullable, CountBuf>::from_buffer(b), Count(w)).ok().expect("OB: one zero offset is valid");
    let r = Array::<Vec<bool>, CountBuf>::from_buffer(VariableSizeList::from_buffer(o)).export();
    check!(r.err() == Some(ExportError::NonZeroOffset { offset }), "an offset of an inner level is rejected");
    check!(dropped() == 2, "a failed export frees the array");
}

static mut CALLS: (usize, usize) = (0, 0);
unsafe extern "C" fn foreign_array(a: *mut ArrowArray) {
    let a = a.cast::<RawArray>();
    unsafe {
        CALLS.0 += 1;
        CALLS.1 = a as usize;
        (*a).release = None;
    }
}
unsafe extern "C" fn foreign_schema(s: *mut ArrowSchema) {
    let s = s.cast::<RawSchema>();
    unsafe {
        CALLS.0 += 1;
        CALLS.1 = s as usize;
        (*s).release = None;
    }
}
/// Dropping a live structure calls its callback once, with its address;
/// dropping a released or default one does nothing.
#[cfg(kani)]
fn dropping() {
    let live: bool = any();
    let a = RawArray {
        length: any(), null_count: any(), offset: any(), n_buffers: any(), n_children: any(), buffers: any::<usize>() as *mut _, children: any::<usize>() as *mut _,
        dictionary: any::<usize>() as *mut _, release: if live { Some(foreign_array) } else { None }, private_data: any::<usize>() as *mut _,
    };
    let s = RawSchema {
        format: any::<usize>() as *const _, name: any::<usize>() as *const _, metadata: any::<usize>() as *const _, flags: any(), n_children: any(), children: any::<usize>() as *mut _,
        dictionary: any::<usize>() as *mut _, release: if live { Some(foreign_schema) } else { None }, private_data: any::<usize>() as *mut _,
    };
    unsafe { CALLS = (0, 0) };
    let mut a = core::mem::ManuallyDrop::new(back_array(a));
    let mut s = core::mem::ManuallyDrop::new(back_schema(s));
    check!(a.is_released() == !live && s.is_released() == !live, "a structure is released exactly when it has no callback");
    unsafe { core::mem::ManuallyDrop::drop(&mut a) };
    check!(unsafe { CALLS } == if live { (1, ptr::from_ref(&*a) as usize) } else { (0, 0) }, "the callback is called once, with the structure");
    unsafe { CALLS = (0, 0) };
    unsafe { core::mem::ManuallyDrop::drop(&mut s) };
    check!(unsafe { CALLS } == if live { (1, ptr::from_ref(&*s) as usize) } else { (0, 0) }, "the callback is called once, with the structure");
    let (a, s) = (ArrowArray::default(), ArrowSchema::default());
    check!(a.is_released() && s.is_released(), "default structures are released");
    unsafe { CALLS = (0, 0) };
    drop((a, s));
    check!(unsafe { CALLS.0 } == 0, "dropping default structures does nothing");
}
#[cfg(not(kani))]
use nat::{dropping, fixed, list, lone_child};
#[cfg(not(kani))]
mod nat {
    // decided by the verifier; the executed contracts below cover the rest
    pub fn dropping() {}
    pub fn fixed() {}
    pub fn list() {}
    pub fn lone_child() {}
}

obligations! { "C20";
    proof c20_flat [4] "any values: moved or not, released by callback or drop, in either order" { flat() }
    proof c20_bits [4] "any packed booleans, exported or refused" { bits() }
    bounded c20_nullable [10] "up to 8 nullable values with any validity, exported or refused" { nullable() }
    proof c20_drop [2] "any structure: dropping calls the callback once, or does nothing" { dropping() }
    proof_cd c20_list [4] "a list over any child: both levels are freed once" { list() }
    proof_cd c20_fixed [8] "fixed-size lists over any child: both levels are freed once" { fixed() }
    proof_cd c20_lone_child [4] "a child released before its parent" { lone_child() }
    proof_cd c20_refused [4] "a list refused for the offset of its child" { refused() }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::{cabi::*, fail, gen_::*};

    /// A C move: the bytes are copied and the old place is ruined.
    fn mv<T: Copy>(mut b: Box<T>) -> Box<T> {
        let n = Box::new(*b);
        unsafe { ptr::write_bytes(&raw mut *b, 0xDB, 1) };
        n
    }
    pub fn lives<T: Item + ArrayItem, S: Where>()
    where
        T::Memory<S>: Start + Describe,
        Array<T, S>: Start + Export + Collection<Owned = T>,
    {
        let before = fail::blocks();
        let (made0, gone0) = tokens();
        let gone = || tokens().1 - gone0;
        {
            let (x, m) = <Array<T, S> as Start>::start(some_len());
            let owned = tokens().0 - made0;
            check!(gone() == 0, "OB: the generator keeps what it makes");
            match x.export() {
                Err(_) => check!(gone() == owned, "a failed export frees the array"),
                Ok((a, s)) => {
                    let mut a = Box::new(moved_array(a));
                    let mut s = Box::new(moved_schema(s));
                    let mut spare: Vec<Box<RawArray>> = Vec::new();
                    let mut spare_s: Vec<Box<RawSchema>> = Vec::new();
                    // children taken out: what is left can no longer be read as a whole
                    let (mut whole, mut whole_s) = (true, true);
                    for _ in 0..pick(9) {
                        match pick(9) {
                            0 => a = mv(a),
                            1 => s = mv(s),
                            2 | 3 => {
                                if a.release.is_some() && whole {
                                    check!(read_all::<T>(&a) == m, "buffers and children stay valid");
                                }
                                if s.release.is_some() && whole_s {
                                    schema_is(&s, &T::shape());
                                }
                            }
                            4 => {
                                if a.release.is_some() {
                                    release_array(&mut a);
                                    array_cleared(&a);
                                    check!(gone() == owned, "releasing frees what the array owns, once");
                                }
                            }
                            5 => {
                                if s.release.is_some() {
                                    let g = gone();
                                    release_schema(&mut s);
                                    schema_cleared(&s);
                                    check!(gone() == g, "releasing the schema frees nothing of the array");
                                }
                            }
                            6 => {
                                // take a child out, as C consumers may
                                if a.release.is_some() && !a.children.is_null() {
                                    let mut c = unsafe { &mut **a.children };
                                    while coin() && c.release.is_some() && !c.children.is_null() {
                                        c = unsafe { &mut **c.children };
                                    }
                                    if c.release.is_some() {
                                        spare.push(Box::new(*c));
                                        c.release = None;
                                        whole = false;
                                    }
                                }
                            }
                            7 => {
                                if s.release.is_some() && !s.children.is_null() {
                                    let mut c = unsafe { &mut **s.children };
                                    while coin() && c.release.is_some() && !c.children.is_null() {
                                        c = unsafe { &mut **c.children };
                                    }
                                    if c.release.is_some() {
                                        spare_s.push(Box::new(*c));
                                        c.release = None;
                                        whole_s = false;
                                    }
                                }
                            }
                            _ => {
                                if let Some(mut c) = spare.pop() {
                                    let g = gone();
                                    release_array(&mut c);
                                    array_cleared(&c);
                                    check!(gone() == g, "releasing a child frees nothing of its parent");
                                }
                                if let Some(mut c) = spare_s.pop() {
                                    release_schema(&mut c);
                                    schema_cleared(&c);
                                }
                            }
                        }
                        check!(gone() == if a.release.is_some() { 0 } else { owned }, "the storage lives exactly as long as the array");
                    }
                    // taken children are released in either order with the rest
                    if coin() {
                        spare.drain(..).for_each(|c| drop(back_array(*c)));
                    }
                    if coin() {
                        drop(back_array(*a));
                        drop(back_schema(*s));
                    } else {
                        drop(back_schema(*s));
                        drop(back_array(*a));
                    }
                    check!(gone() == owned, "what the array owns is freed exactly once");
                    spare.drain(..).for_each(|c| drop(back_array(*c)));
                    spare_s.drain(..).for_each(|c| drop(back_schema(*c)));
                    check!(gone() == owned, "what the array owns is freed exactly once");
                }
            }
        }
        check!(fail::blocks() == before, "nothing is leaked or freed twice");
    }
}
#[cfg(not(kani))]
use native::lives;

runs! { "C20";
    c20_run_a "37 item types in 6 storages: moves, reads, releases and children taken out, in any order" { crate::gen_::reseed(); crate::c_types!(lives) }
    c20_run_b "the same, second stream" { crate::gen_::reseed(); crate::c_types!(lives) }
}
