//! C21: nullability operations follow option semantics.

use narrow::{
    buffer::{Buffer, VecBuffer},
    nullability::{NonNullable, Nullability, Nullable},
};
use core::cell::Cell;

use crate::{nd, nd::any};

/// An arbitrary pure function of one item: any result, counted calls and
/// recorded argument.
struct Fun<'a> {
    calls: &'a Cell<usize>,
    arg: &'a Cell<Option<(u64, u64)>>,
    out: u64,
}
impl Fun<'_> {
    fn call(&self, x: u64, y: u64) -> u64 {
        self.calls.set(self.calls.get() + 1);
        self.arg.set(Some((x, y)));
        self.out
    }
}
fn fun() -> (Cell<usize>, Cell<Option<(u64, u64)>>, u64) {
    (Cell::new(0), Cell::new(None), any())
}
fn opt() -> Option<u64> {
    let (p, x): (bool, u64) = (any(), any());
    if p { Some(x) } else { None }
}

fn constants() {
    check!(!NonNullable::NULLABLE && Nullable::NULLABLE, "only nullable is nullable");
}
fn map_plain() {
    let x: u64 = any();
    let (calls, arg, out) = fun();
    let f = Fun { calls: &calls, arg: &arg, out };
    let r: u64 = NonNullable::map::<u64, u64, _>(x, |v| f.call(v, 0));
    check!(calls.get() == 1, "the function is called once");
    check!(arg.get() == Some((x, 0)), "the function is applied to the item");
    check!(r == out, "the result is the function's");
}
fn map_nullable() {
    let x = opt();
    let (calls, arg, out) = fun();
    let f = Fun { calls: &calls, arg: &arg, out };
    let r: Option<u64> = Nullable::map::<u64, u64, _>(x, |v| f.call(v, 0));
    check!(r.is_some() == x.is_some(), "absent exactly when the input is absent");
    check!(calls.get() == usize::from(x.is_some()), "called at most once and only when the input is present");
    if let Some(x) = x {
        check!(arg.get() == Some((x, 0)), "the function is applied to the item");
        check!(r == Some(out), "the result is the function's");
    }
}
fn zips() {
    let (x, y): (u64, u64) = (any(), any());
    check!(NonNullable::zip::<u64, u64>(x, y) == (x, y), "a plain zip pairs the items in order");
    let (x, y) = (opt(), opt());
    let r: Option<(u64, u64)> = Nullable::zip::<u64, u64>(x, y);
    check!(r.is_some() == (x.is_some() && y.is_some()), "absent exactly when any input is absent");
    if let (Some(x), Some(y)) = (x, y) {
        check!(r == Some((x, y)), "a zip pairs the items in order");
    }
}
fn zip_with_plain() {
    let (x, y): (u64, u64) = (any(), any());
    let (calls, arg, out) = fun();
    let f = Fun { calls: &calls, arg: &arg, out };
    let r: u64 = NonNullable::zip_with::<u64, u64, u64, _>(x, y, |(a, b)| f.call(a, b));
    check!(calls.get() == 1, "the function is called once");
    check!(arg.get() == Some((x, y)), "the function is applied to both items in order");
    check!(r == out, "the result is the function's");
}
fn zip_with_nullable() {
    let (x, y) = (opt(), opt());
    let (calls, arg, out) = fun();
    let f = Fun { calls: &calls, arg: &arg, out };
    let r: Option<u64> = Nullable::zip_with::<u64, u64, u64, _>(x, y, |(a, b)| f.call(a, b));
    let both = x.is_some() && y.is_some();
    check!(r.is_some() == both, "absent exactly when any input is absent");
    check!(calls.get() == usize::from(both), "called at most once and only when all inputs are present");
    if let (Some(x), Some(y)) = (x, y) {
        check!(arg.get() == Some((x, y)), "the function is applied to both items in order");
        check!(r == Some(out), "the result is the function's");
    }
}
/// Nested absence: an item that is itself an option is passed through as it is.
fn nested() {
    let (p, y) = (any::<bool>(), opt());
    let x: Option<Option<u64>> = if p { Some(y) } else { None };
    let z = opt();
    let calls = Cell::new(0);
    let r: Option<bool> = Nullable::map::<Option<u64>, bool, _>(x, |v| {
        calls.set(calls.get() + 1);
        v.is_some()
    });
    check!(r == if p { Some(y.is_some()) } else { None }, "a present absent value is a present input");
    check!(calls.get() == usize::from(p), "called exactly when the outer item is present");
    let r: Option<(Option<u64>, u64)> = Nullable::zip::<Option<u64>, u64>(x, z);
    check!(r.is_some() == (p && z.is_some()), "absence inside an item does not count");
    if let (Some(x), Some(z), Some((a, b))) = (x, z, r) {
        check!(a == x && b == z, "a zip pairs the items in order");
    }
}
/// A callback that moves its input: owned items are moved, not duplicated.
struct Tracked<'a>(&'a Cell<i32>, u64);
impl Drop for Tracked<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1);
    }
}
fn moves() {
    let (p, q): (bool, bool) = (any(), any());
    let (x, y): (u64, u64) = (any(), any());
    let live = Cell::new(i32::from(p) + i32::from(q));
    let a = if p { Some(Tracked(&live, x)) } else { None };
    let b = if q { Some(Tracked(&live, y)) } else { None };
    let r = Nullable::zip::<Tracked, Tracked>(a, b);
    check!(live.get() == if p && q { 2 } else { 0 }, "items of an absent result are dropped once");
    drop(r);
    check!(live.get() == 0, "every item is dropped once");
}

/// Items of every size: none, small, large, droppable, owned elsewhere.
trait It: Clone + PartialEq + 'static {
    fn it() -> Self;
}
macro_rules! plain { ($($t:ty),*) => { $( impl It for $t { fn it() -> Self { any() } } )* } }
plain!(u8, u64, bool);
#[derive(Clone, PartialEq, Debug)]
struct Big(u64, u64, u64, u64, u64);
impl It for Big {
    fn it() -> Self {
        Big(any(), any(), any(), any(), any())
    }
}
impl It for () {
    fn it() {}
}
impl It for Option<()> {
    fn it() -> Self {
        any::<bool>().then_some(())
    }
}
impl It for [u32; 0] {
    fn it() -> Self {
        []
    }
}
impl It for Box<u16> {
    fn it() -> Self {
        Box::new(any())
    }
}
impl It for Option<Box<u8>> {
    fn it() -> Self {
        let (p, x): (bool, u8) = (any(), any());
        if p { Some(Box::new(x)) } else { None }
    }
}
fn opt_of<T: It>() -> Option<T> {
    if any() { Some(T::it()) } else { None }
}
/// Every operation of both kinds, from `T` and `U` to `R`.
fn kinds<T: It, U: It, R: It>() {
    let calls = Cell::new(0);
    let out = R::it();
    let (x, y) = (T::it(), U::it());
    let f = |v: T| {
        calls.set(calls.get() + 1);
        check!(v == x, "the function is applied to the item");
        out.clone()
    };
    check!(NonNullable::map::<T, R, _>(x.clone(), f) == out && calls.get() == 1, "plain map is application");
    check!(NonNullable::zip::<T, U>(x.clone(), y.clone()) == (x.clone(), y.clone()), "plain zip pairs");
    let g = |v: (T, U)| {
        calls.set(calls.get() + 1);
        check!(v.0 == x && v.1 == y, "the function is applied to both items in order");
        out.clone()
    };
    check!(NonNullable::zip_with::<T, U, R, _>(x.clone(), y.clone(), g) == out && calls.get() == 2, "plain zip_with is application");
}
fn kinds_nullable<T: It, U: It, R: It>() {
    let out = R::it();
    let (x, y): (Option<T>, Option<U>) = (opt_of(), opt_of());
    let both = x.is_some() && y.is_some();
    let calls = Cell::new(0);
    let f = |v: T| {
        calls.set(calls.get() + 1);
        check!(Some(&v) == x.as_ref(), "the function is applied to the item");
        out.clone()
    };
    let r: Option<R> = Nullable::map::<T, R, _>(x.clone(), f);
    check!(r == if x.is_some() { Some(out.clone()) } else { None }, "map is absent exactly when the input is");
    check!(calls.get() == usize::from(x.is_some()), "called exactly when the input is present");
    let z: Option<(T, U)> = Nullable::zip::<T, U>(x.clone(), y.clone());
    check!(z.is_some() == both, "zip is absent exactly when any input is");
    if let (Some(z), Some(x), Some(y)) = (&z, &x, &y) {
        check!(z.0 == *x && z.1 == *y, "zip pairs in order");
    }
    let calls = Cell::new(0);
    let g = |v: (T, U)| {
        calls.set(calls.get() + 1);
        check!(Some(&v.0) == x.as_ref() && Some(&v.1) == y.as_ref(), "the function is applied to both items in order");
        out.clone()
    };
    let r: Option<R> = Nullable::zip_with::<T, U, R, _>(x.clone(), y.clone(), g);
    check!(r == if both { Some(out.clone()) } else { None }, "zip_with is absent exactly when any input is");
    check!(calls.get() == usize::from(both), "called exactly when all inputs are present");
}
macro_rules! table { ($f:ident) => {{
    $f::<(), u64, u8>();
    $f::<u8, (), bool>();
    $f::<bool, u8, ()>();
    $f::<(), (), ()>();
    $f::<Big, [u32; 0], [u32; 0]>();
    $f::<u64, Big, Big>();
    $f::<Option<()>, u8, Option<()>>();
    $f::<Box<u16>, Option<Box<u8>>, Box<u16>>();
    $f::<Option<Box<u8>>, Box<u16>, Option<Box<u8>>>();
    $f::<u64, u64, u64>();
}} }

obligations! { "C21";
    proof c21_constants [2] "which type is nullable" { constants() }
    proof c21_map_plain [2] "NonNullable::map: any item, any function" { map_plain() }
    proof c21_map_nullable [2] "Nullable::map: any item or absence, any function, number of calls" { map_nullable() }
    proof c21_zip [2] "zip of both kinds: any items or absences" { zips() }
    proof c21_zip_with_plain [2] "NonNullable::zip_with: any items, any function" { zip_with_plain() }
    proof c21_zip_with_nullable [2] "Nullable::zip_with: any items or absences, any function, number of calls" { zip_with_nullable() }
    proof c21_nested [2] "items that are themselves options" { nested() }
    proof c21_moves [2] "owned items are moved and dropped once" { moves() }
    proof c21_sizes [8] "plain operations at ten combinations of item types: no memory, small, large, owned" { table!(kinds) }
    proof c21_sizes_nullable [8] "nullable operations at ten combinations of item types: no memory, small, large, owned" { table!(kinds_nullable) }
}
runs! { "C21"; }
