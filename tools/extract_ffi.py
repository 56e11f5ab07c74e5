#!/usr/bin/env python3
"""Copies /repo/narrow-ffi to /verif/work/narrow-ffi for the verifier.

Kani cannot compile constants of type &CStr. The copy is the source text with
exactly these substitutions, and nothing else:
 1. `c"TEXT"` becomes `crate::cstr_shim::lit(b"TEXT\\0")`;
 2. the type name `CStr` imported from core::ffi (or std::ffi) becomes the alias
    `crate::cstr_shim::CStr`, the slice of characters including the terminator,
    with the methods of CStr on it;
 3. `format!("TEXT{NAME}MORE")` with one inline integer becomes
    `crate::cstr_shim::text("TEXT", NAME as usize, "MORE")`, which writes it in
    decimal without the formatting machinery of core;
 4. the lint levels `#![deny(` become `#![allow(`;
 5. the crate root gains `mod cstr_shim` (below).
The manifest keeps the dependency on /repo. Run on every check."""
import re, sys
from pathlib import Path

SRC = Path(sys.argv[1] if len(sys.argv) > 1 else "/repo/narrow-ffi")
DST = Path(sys.argv[2] if len(sys.argv) > 2 else "/verif/work/narrow-ffi")

MANIFEST = """[package]
name = "narrow-ffi"
version = "0.0.0"
edition = "2024"
publish = false

[dependencies]
narrow = { path = "/repo" }

[lints.rust]
unexpected_cfgs = { level = "allow", check-cfg = ['cfg(kani)'] }
"""
SHIM = r"""
/// Stand-in for core::ffi::CStr (substitution 2): the characters of the string
/// and its terminator.
pub mod cstr_shim {
    extern crate alloc;
    use core::ffi::c_char;
    pub type CStr = [c_char];
    pub const fn lit<const N: usize>(b: &'static [u8; N]) -> &'static CStr {
        unsafe { core::slice::from_raw_parts(b.as_ptr().cast::<c_char>(), N) }
    }
    pub fn text(before: &str, mut n: usize, after: &str) -> alloc::string::String {
        let mut digits = [0u8; 20];
        let mut k = 20;
        while k == 20 || n != 0 {
            k -= 1;
            digits[k] = b'0' + (n % 10) as u8;
            n /= 10;
        }
        let mut b = alloc::vec::Vec::with_capacity(before.len() + 20 - k + after.len() + 1);
        b.extend_from_slice(before.as_bytes());
        b.extend_from_slice(&digits[k..]);
        b.extend_from_slice(after.as_bytes());
        unsafe { alloc::string::String::from_utf8_unchecked(b) }
    }
    pub trait CStrMethods {
        unsafe fn from_ptr<'a>(p: *const c_char) -> &'a CStr;
        fn to_bytes(&self) -> &[u8];
        fn to_bytes_with_nul(&self) -> &[u8];
        fn count_bytes(&self) -> usize;
        fn to_str(&self) -> Result<&str, core::str::Utf8Error>;
    }
    impl CStrMethods for CStr {
        unsafe fn from_ptr<'a>(p: *const c_char) -> &'a CStr {
            let mut n = 0;
            while unsafe { *p.add(n) } != 0 {
                n += 1;
            }
            unsafe { core::slice::from_raw_parts(p, n + 1) }
        }
        fn to_bytes(&self) -> &[u8] {
            &self.to_bytes_with_nul()[..self.len() - 1]
        }
        fn to_bytes_with_nul(&self) -> &[u8] {
            unsafe { core::slice::from_raw_parts(self.as_ptr().cast(), self.len()) }
        }
        fn count_bytes(&self) -> usize {
            self.len() - 1
        }
        fn to_str(&self) -> Result<&str, core::str::Utf8Error> {
            core::str::from_utf8(self.to_bytes())
        }
    }
}
"""


def convert(t, root):
    t = re.sub(r'(?<![\w"\'])c"((?:[^"\\]|\\.)*)"', r'crate::cstr_shim::lit(b"\1\\0")', t)
    t = re.sub(r'\b(?:alloc::|std::)?format!\("([^"{}\\]*)\{(\w+)\}([^"{}\\]*)"\)', r'crate::cstr_shim::text("\1", \2 as usize, "\3")', t)
    uses = False

    def imp(m):
        nonlocal uses
        names = [n.strip() for n in m[3].split(",") if n.strip()]
        if "CStr" in names:
            uses = True
            names.remove("CStr")
        return f"{m[1]}{{{', '.join(names)}}}"

    t = re.sub(r"((?:core::|std::|use core::|use std::|\b)(ffi)::)\{([^{}]*)\}", imp, t)
    t, n = re.subn(r"use (?:core|std)::ffi::CStr;", "", t)
    uses |= n > 0
    # inside a nested import list: `use core::{ffi::CStr, fmt};`
    t, n = re.subn(r"(use (?:core|std)::\{[^;]*?)\bffi::CStr\b,?", r"\1", t)
    uses |= n > 0
    t = re.sub(r"\b(?:core|std)::ffi::CStr\b", "crate::cstr_shim::CStr", t)
    t = t.replace("#![deny(", "#![allow(")
    head = "#[allow(unused_imports)]\nuse crate::cstr_shim::CStrMethods as _;\n"
    if uses:
        head += "#[allow(unused_imports)]\nuse crate::cstr_shim::CStr;\n"
    # after inner attributes and inner docs
    lines, i, depth = t.split("\n"), 0, 0
    k = 0
    while i < len(lines):
        l = lines[i].strip()
        if depth > 0 or l.startswith("#!["):
            depth += lines[i].count("[") - lines[i].count("]")
            k = i + 1
        elif l.startswith("//") or l == "":
            if l.startswith("//!"):
                k = i + 1
        else:
            break
        i += 1
    t = "\n".join(lines[:k]) + "\n" + head + "\n".join(lines[k:])
    if root:
        t += SHIM
    return t


def put(p, t):
    p.parent.mkdir(parents=True, exist_ok=True)
    if not p.exists() or p.read_text() != t:
        p.write_text(t)


def main():
    keep = {DST / "Cargo.toml"}
    put(DST / "Cargo.toml", MANIFEST)
    for f in sorted((SRC / "src").rglob("*.rs")):
        d = DST / "src" / f.relative_to(SRC / "src")
        put(d, convert(f.read_text(), d == DST / "src" / "lib.rs"))
        keep.add(d)
    for f in (DST / "src").rglob("*.rs"):
        if f not in keep:
            f.unlink()


main()
