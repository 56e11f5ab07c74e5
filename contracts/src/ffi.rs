//! The C data interface structures as a C consumer or producer sees them: a
//! mirror of the C ABI, exchanged with the real structures by transmutation
//! (their fields are private and their layout is fixed by `repr(C)`).

use core::ffi::{c_char, c_void};
use core::mem::{ManuallyDrop, transmute};

use narrow_ffi::{ArrowArray, ArrowSchema};

pub type ReleaseArray = unsafe extern "C" fn(*mut ArrowArray);
pub type ReleaseSchema = unsafe extern "C" fn(*mut ArrowSchema);

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct RawSchema {
    pub format: *const c_char,
    pub name: *const c_char,
    pub metadata: *const c_char,
    pub flags: i64,
    pub n_children: i64,
    pub children: *mut *mut RawSchema,
    pub dictionary: *mut RawSchema,
    pub release: Option<ReleaseSchema>,
    pub private_data: *mut c_void,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct RawArray {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: i64,
    pub buffers: *mut *const c_void,
    pub children: *mut *mut RawArray,
    pub dictionary: *mut RawArray,
    pub release: Option<ReleaseArray>,
    pub private_data: *mut c_void,
}
const _: () = assert!(size_of::<RawSchema>() == size_of::<ArrowSchema>() && size_of::<RawArray>() == size_of::<ArrowArray>());

/// The fields of a structure, as a C consumer reads them.
pub fn array(a: &ArrowArray) -> &RawArray {
    unsafe { &*core::ptr::from_ref(a).cast() }
}
pub fn schema(s: &ArrowSchema) -> &RawSchema {
    unsafe { &*core::ptr::from_ref(s).cast() }
}
/// A structure made by a C producer.
pub fn real_array(a: &RawArray) -> &ArrowArray {
    unsafe { &*core::ptr::from_ref(a).cast() }
}
pub fn real_schema(s: &RawSchema) -> &ArrowSchema {
    unsafe { &*core::ptr::from_ref(s).cast() }
}
/// Moves the structure as C code moves it: by copying its bytes.
pub fn moved_array(a: ArrowArray) -> RawArray {
    unsafe { transmute(a) }
}
pub fn moved_schema(s: ArrowSchema) -> RawSchema {
    unsafe { transmute(s) }
}
pub fn back_array(a: RawArray) -> ArrowArray {
    unsafe { transmute(a) }
}
pub fn back_schema(s: RawSchema) -> ArrowSchema {
    unsafe { transmute(s) }
}
/// Releases through the callback, as a C consumer does.
pub fn release_array(a: &mut RawArray) {
    if let Some(f) = a.release {
        unsafe { f(core::ptr::from_mut(a).cast()) }
    }
}
pub fn release_schema(s: &mut RawSchema) {
    if let Some(f) = s.release {
        unsafe { f(core::ptr::from_mut(s).cast()) }
    }
}
pub unsafe extern "C" fn keep_array(_: *mut ArrowArray) {}
pub unsafe extern "C" fn keep_schema(_: *mut ArrowSchema) {}

/// Whether `p` is the C string `want` (which includes its terminator).
pub fn is_str(p: *const c_char, want: &[u8]) -> bool {
    if p.is_null() {
        return false;
    }
    let mut i = 0;
    while i < want.len() {
        if unsafe { *p.add(i) } as u8 != want[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn buffer(a: &RawArray, i: usize) -> *const c_void {
    unsafe { *a.buffers.add(i) }
}
pub fn child(a: &RawArray, i: usize) -> &RawArray {
    unsafe { &**a.children.add(i) }
}
pub fn schema_child(s: &RawSchema, i: usize) -> &RawSchema {
    unsafe { &**s.children.add(i) }
}
pub const NULLABLE: i64 = 2;

/// Stand-ins for the destructors where releasing is not the matter.
pub fn no_drop_array(_: &mut ArrowArray) {}
pub fn no_drop_schema(_: &mut ArrowSchema) {}
