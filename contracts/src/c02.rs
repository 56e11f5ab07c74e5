//! C02: raw bitmap parts are accepted exactly when they fit, and come back intact.

use narrow::{
    bitmap::{Bitmap, BitmapError},
    buffer::{ArrayBuffer, BoxBuffer, BufferRef, SliceBuffer, VecBuffer},
    collection::Collection,
    length::Length,
};

use crate::{nd, nd::any, store::*};

/// offset + bits fits in 8 * bytes, in mathematical integers.
fn fits(bytes: usize, bits: usize, offset: usize) -> bool {
    (offset as u128) + (bits as u128) <= 8 * (bytes as u128)
}

obligations! { "C02";
    proof c02_parts_slice [1] "Bitmap::try_from_parts/into_parts/bit_offset over borrowed bytes: every buffer up to 2^40 bytes, every bits and offset" {
        let bytes = any_slice::<u8>(40);
        let (bits, offset): (usize, usize) = (any(), any());
        match Bitmap::<SliceBuffer<'static>>::try_from_parts(bytes, bits, offset) {
            Ok(b) => {
                check!(fits(bytes.len(), bits, offset), "accepted only when offset + bits <= 8 * bytes");
                check!(b.len() == bits, "length kept");
                check!(b.bit_offset() == offset, "offset kept");
                let r: &&[u8] = b.buffer_ref();
                check!(r.as_ptr() == bytes.as_ptr() && r.len() == bytes.len(), "buffer_ref is the buffer given");
                let index: usize = any();
                // In-range positions never lie outside the buffer (no panic, some value).
                check!(b.view(index).is_some() == (index < bits), "readable exactly below the length");
                let (buffer, b2, o2) = b.into_parts();
                check!(buffer.as_ptr() == bytes.as_ptr() && buffer.len() == bytes.len(), "into_parts returns the same buffer");
                check!(b2 == bits && o2 == offset, "into_parts returns bits and offset");
            }
            Err(e) => {
                check!(!fits(bytes.len(), bits, offset), "rejected only when offset + bits > 8 * bytes");
                check!(e == BitmapError::OutOfBounds { offset, bits, bytes: bytes.len() }, "error reports offset, bits and bytes");
            }
        }
    }
    proof c02_parts_growable [1] "Bitmap::try_from_parts/into_parts over an arbitrary growable buffer" {
        let bytes = Sym::<u8>::any(40, 0);
        let (p, n) = (bytes.sl().as_ptr(), bytes.sl().len());
        let (bits, offset): (usize, usize) = (any(), any());
        match Bitmap::<SymBuf>::try_from_parts(bytes, bits, offset) {
            Ok(b) => {
                check!(fits(n, bits, offset), "accepted only when offset + bits <= 8 * bytes (growable)");
                check!(b.len() == bits && b.bit_offset() == offset, "length and offset kept (growable)");
                let (buffer, b2, o2) = b.into_parts();
                check!(buffer.sl().as_ptr() == p && buffer.sl().len() == n && b2 == bits && o2 == offset, "into_parts is the inverse (growable)");
            }
            Err(e) => {
                check!(!fits(n, bits, offset), "rejected only when offset + bits > 8 * bytes (growable)");
                check!(e == BitmapError::OutOfBounds { offset, bits, bytes: n }, "error reports offset, bits and bytes (growable)");
            }
        }
    }
    bounded c02_parts_array [5] "fixed arrays of 0 and 4 bytes: every content, bits, offset" {
        let bytes: [u8; 4] = any();
        let (bits, offset): (usize, usize) = (any(), any());
        match Bitmap::<ArrayBuffer<4>>::try_from_parts(bytes, bits, offset) {
            Ok(b) => {
                check!(fits(4, bits, offset), "accepted only when it fits (array)");
                check!(b.into_parts() == (bytes, bits, offset), "into_parts is the inverse (array)");
            }
            Err(e) => check!(!fits(4, bits, offset) && e == BitmapError::OutOfBounds { offset, bits, bytes: 4 }, "rejected only when it does not fit (array)"),
        }
        match Bitmap::<ArrayBuffer<0>>::try_from_parts([], bits, offset) {
            Ok(b) => check!(bits == 0 && offset == 0 && b.len() == 0, "an empty buffer holds no bits"),
            Err(_) => check!(bits != 0 || offset != 0, "an empty buffer holds zero bits"),
        }
    }
}

runs! { "C02";
    c02_run_vec "real vector and boxed storage" {
        let n = nd::below(40);
        let bytes: Vec<u8> = (0..n).map(|_| any()).collect();
        let (bits, offset) = if any() { (nd::below(400), nd::below(400)) } else { (any(), any()) };
        let r = Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), bits, offset);
        let q = Bitmap::<BoxBuffer>::try_from_parts(bytes.clone().into_boxed_slice(), bits, offset);
        check!(r.is_ok() == fits(n, bits, offset) && q.is_ok() == r.is_ok(), "accepted exactly when it fits (owned storage)");
        match r {
            Ok(b) => check!(b.clone().into_parts() == (bytes.clone(), bits, offset) && b.into_parts() == (bytes, bits, offset), "into_parts is the inverse (vector)"),
            Err(e) => {
                check!(e == BitmapError::OutOfBounds { offset, bits, bytes: n }, "error reports the request (vector)");
                let s = e.to_string();
                check!(s.contains(&offset.to_string()) && s.contains(&bits.to_string()) && s.contains(&n.to_string()), "error text names the request");
            }
        }
    }
}
