#!/usr/bin/env python3
"""Copies /repo/src to /verif/work/narrow-loops for the obligations with loop
invariants (contracts-loops). The copy is the source text with exactly these
changes, and nothing else:
 1. `.iter().enumerate()` becomes `.iter().loop_enumerate()`: the same sequence
    of pairs (shim below), whose `fold` is decided by the loop rule;
 2. in `try_from_parts` of offset.rs, `for PAT in ITER {` becomes
    `for PAT in crate::loop_shim::cut(ITER, OFFSETS, &raw mut PREVIOUS) {`,
    PREVIOUS being the only variable declared `let mut` besides the iterator;
 3. `#![forbid(unsafe_code)]` and `#![deny(` become `#![allow(`, and the README
    is left out of the documentation;
 4. the crate root gains `pub mod loop_shim` (below).
The loop rule, for a loop over a finite sequence with invariant I(k, state)
before item k: check I(0, initial state); then take any k up to the length and
any state with I(k, state); if k is the length the loop ends there, otherwise
the body runs once on item k, and if it completes I(k + 1, state) is checked
and the path ends. The body may leave the loop, the path then goes on. Only the
state given to the rule is changed by the loop: the closure of `fold` is
required to be Fn, and the `for` loop is left alone (undecided) when another
variable of the function is mutable.
Where 1 or 2 finds nothing to change the loop stays as it is and its obligation
is undecided. Run on every check."""
import re, sys
from pathlib import Path

SRC = Path(sys.argv[1] if len(sys.argv) > 1 else "/repo")
DST = Path(sys.argv[2] if len(sys.argv) > 2 else "/verif/work/narrow-loops")

MANIFEST = """[package]
name = "narrow"
version = "0.0.0"
edition = "2024"
publish = false

[lints.rust]
unexpected_cfgs = { level = "allow", check-cfg = ['cfg(kani)'] }
"""
SHIM = r"""
/// Loop shim: see tools/extract_loops.py.
#[allow(missing_docs, missing_debug_implementations, static_mut_refs, unused, clippy::all, clippy::pedantic)]
pub mod loop_shim {
    use crate::offset::Offset;

    /// The pairs of position and item of a slice, from position `at` on.
    #[derive(Clone, Copy)]
    pub struct Pairs<'a, T> {
        s: &'a [T],
        at: usize,
    }
    pub trait LoopEnumerate<'a, T> {
        fn loop_enumerate(self) -> Pairs<'a, T>;
    }
    impl<'a, T> LoopEnumerate<'a, T> for core::slice::Iter<'a, T> {
        fn loop_enumerate(self) -> Pairs<'a, T> {
            Pairs { s: self.as_slice(), at: 0 }
        }
    }
    impl<'a, T> Iterator for Pairs<'a, T> {
        type Item = (usize, &'a T);
        fn next(&mut self) -> Option<Self::Item> {
            let x = self.s.get(self.at)?;
            let i = self.at;
            self.at = i + 1;
            Some((i, x))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.s.len() - self.at;
            (n, Some(n))
        }
    }
    impl<'a, T> ExactSizeIterator for Pairs<'a, T> {}

    impl<'a, T> Pairs<'a, T> {
        fn left(&self) -> usize {
            self.s.len() - self.at
        }
        fn pair(&self, k: usize) -> (usize, &'a T) {
            let p = self.at + k;
            (p, unsafe { &*self.s.as_ptr().add(p) })
        }
    }

    // ------------------------------------------------------------- counting

    /// Ghost: the bits counted, OFFSET..OFFSET + BITS of the buffer at BASE.
    /// The fold runs over bytes FROM..FROM + COUNT of it; SUM[k] is the number
    /// of set bits among the counted bits in the first `k` of those bytes.
    pub static mut BASE: *const u8 = core::ptr::null();
    pub static mut OFFSET: usize = 0;
    pub static mut BITS: usize = 0;
    pub static mut SUM: *const usize = core::ptr::null();
    pub static mut FROM: usize = 0;
    pub static mut COUNT: usize = 0;

    /// The set bits of byte `k` of the buffer that are counted, by definition.
    pub fn in_range(byte: u8, k: usize) -> usize {
        let (offset, bits) = unsafe { (OFFSET, BITS) };
        let one = |j: usize| {
            let p = k * 8 + j;
            usize::from(p >= offset && p - offset < bits && byte & (1 << j) != 0)
        };
        one(0) + one(1) + one(2) + one(3) + one(4) + one(5) + one(6) + one(7)
    }
    pub fn sum(k: usize) -> usize {
        unsafe { *SUM.add(k) }
    }
    /// The number of counted bits, set or not, before byte FROM + `k`.
    pub fn room(k: usize) -> usize {
        let end = unsafe { OFFSET + BITS };
        let p = 8 * (unsafe { FROM } + k);
        (if p < end { p } else { end }).saturating_sub(unsafe { OFFSET })
    }

    impl<'a> Pairs<'a, u8> {
        #[cfg(kani)]
        pub fn fold<F: Fn(usize, (usize, &'a u8)) -> usize>(self, init: usize, f: F) -> usize {
            let n = self.left();
            unsafe {
                FROM = self.s.as_ptr().offset_from(BASE) as usize + self.at;
                COUNT = n;
            }
            assert!(init == sum(0) && init <= room(0), "OB: the invariant holds before the loop");
            let (k, acc): (usize, usize) = (kani::any(), kani::any());
            kani::assume(k <= n && acc == sum(k) && acc <= room(k));
            if k == n {
                return acc;
            }
            let (i, x) = self.pair(k);
            // the definition of SUM at k
            kani::assume(sum(k + 1) == sum(k) + in_range(*x, unsafe { FROM } + k));
            let acc = f(acc, (i, x));
            assert!(acc == sum(k + 1), "OB: each byte adds the number of its counted bits");
            assert!(acc <= room(k + 1), "OB: at most the counted bits so far");
            kani::assume(false);
            unreachable!()
        }
    }

    // -------------------------------------------------------------- offsets

    /// Ghost: an arbitrary position in the offsets.
    pub static mut WATCH: usize = 0;
    /// The offsets at WATCH and WATCH + 1, where there are, when not negative.
    pub static mut HERE: Option<usize> = None;
    pub static mut NEXT: Option<usize> = None;
    pub fn watch<T: Offset>(o: &[T], i: usize) {
        unsafe {
            WATCH = i;
            HERE = if i < o.len() { value(at(o, i)) } else { None };
            NEXT = if i < o.len() && i + 1 < o.len() { value(at(o, i + 1)) } else { None };
        }
    }
    /// Position WATCH is as it should be within the first `end` offsets.
    pub fn good(end: usize) -> bool {
        let (i, x, y) = unsafe { (WATCH, HERE, NEXT) };
        i >= end || (x.is_some() && (i + 1 >= end || y.is_some() && x <= y))
    }

    /// Reads without the bounds check: the caller states the bound.
    pub fn at<T: Copy>(o: &[T], i: usize) -> T {
        unsafe { *o.as_ptr().add(i) }
    }
    pub fn value<T: Offset>(x: T) -> Option<usize> {
        x.try_into().ok()
    }
    /// After `done + 1` offsets: the last is `previous`, and the watched
    /// position among them is ordered.
    pub fn ordered<T: Offset>(o: &[T], done: usize, previous: usize) -> bool {
        done < o.len() && value(at(o, done)) == Some(previous) && good(done + 1)
    }

    /// The loop rule for the offsets after the first.
    pub struct Cut<'a, T> {
        it: Pairs<'a, T>,
        o: &'a [T],
        previous: *mut usize,
        k: usize,
        ran: bool,
    }
    #[cfg(kani)]
    pub fn cut<'a, T: Offset>(it: Pairs<'a, T>, o: &'a [T], previous: *mut usize) -> Cut<'a, T> {
        assert!(it.at > 0 && ordered(o, it.at - 1, unsafe { *previous }), "OB: the invariant holds before the loop");
        let k: usize = kani::any();
        let p: usize = kani::any();
        kani::assume(k <= it.left() && ordered(o, it.at - 1 + k, p));
        unsafe { *previous = p };
        Cut { it, o, previous, k, ran: false }
    }
    #[cfg(kani)]
    impl<'a, T: Offset> Iterator for Cut<'a, T> {
        type Item = (usize, &'a T);
        fn next(&mut self) -> Option<Self::Item> {
            if self.ran {
                assert!(ordered(self.o, self.it.at + self.k, unsafe { *self.previous }), "OB: the loop continues only over valid offsets");
                kani::assume(false);
            }
            self.ran = true;
            (self.k < self.it.left()).then(|| self.it.pair(self.k))
        }
    }
}
"""


def offsets(t):
    """Inserts the invariant of the loop in try_from_parts."""
    m = re.search(r"\bfn try_from_parts\b.*?\n    }\n", t, re.S)
    if not m:
        return t
    f = m[0]
    muts = re.findall(r"\blet mut (\w+)", f)
    arg = re.search(r"(\w+)\.borrow\(\)\s*\.iter\(\)\s*\.loop_enumerate\(\)", f)
    loops = re.findall(r"^ *for (.*?) in (\w+) \{", f, re.M)
    if not (arg and len(loops) == 1 and len(re.findall(r"\b(?:for|while|loop)\b", f)) == 1):
        return t
    state = [v for v in muts if v != loops[0][1]]
    if len(state) != 1 or loops[0][1] not in muts:
        return t
    o = f"<_ as core::borrow::Borrow<[OffsetItem]>>::borrow(&{arg[1]})"
    g = re.sub(r"^( *)for (.*?) in (\w+) \{", rf"\1for \2 in crate::loop_shim::cut(\3, {o}, &raw mut {state[0]}) {{", f, flags=re.M)
    return t.replace(f, g, 1)


def convert(p, t):
    if p.name in ("offset.rs", "mod.rs", "validity.rs"):
        t, n = re.subn(r"(\.iter\(\)\s*)\.enumerate\(\)", r"\1.loop_enumerate()", t)
        if p.name == "offset.rs":
            t = offsets(t)
        if n:
            k = t.index("\nuse ")
            t = t[:k] + "\n#[allow(unused_imports)]\nuse crate::loop_shim::LoopEnumerate as _;" + t[k:]
    return t


def put(p, t):
    p.parent.mkdir(parents=True, exist_ok=True)
    if not p.exists() or p.read_text() != t:
        p.write_text(t)


def main():
    put(DST / "Cargo.toml", MANIFEST)
    keep = set()
    for f in sorted((SRC / "src").rglob("*.rs")):
        d = DST / "src" / f.relative_to(SRC / "src")
        t = convert(f, f.read_text())
        if d == DST / "src" / "lib.rs":
            t = t.replace("#![forbid(unsafe_code)]", "#![allow(unsafe_code)]").replace("#![deny(", "#![allow(")
            t = re.sub(r'#!\[doc = include_str!\(.*?\)\]\n', "", t)
            t += SHIM
        put(d, t)
        keep.add(d)
    for f in (DST / "src").rglob("*.rs"):
        if f not in keep:
            f.unlink()


main()
