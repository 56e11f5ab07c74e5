//! C09: appending lists keeps old lists and appends exactly the new ones.

use narrow::{
    bitmap::Bitmap,
    buffer::{Buffer, BufferRef, VecBuffer},
    collection::{ChildRef, Collection, CollectionAlloc, CollectionAllocIn, CollectionRealloc, owned::IntoOwned},
    length::Length,
    offset::{Offset, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, store::*};

type L<O> = Offsets<Watched, O, SymBuf, Watched>;

/// An arbitrary collection of lists (any number, any offsets, any child
/// length with an unreferenced suffix of any length), the class invariant
/// instantiated at one arbitrary list `i` and at the last offset.
struct State<O: Offset> {
    o: L<O>,
    m: usize,
    i: usize,
    s: usize,
    e: usize,
    p: usize,
    watch: usize,
    old: u32,
}
fn state<O: Offset + nd::Any>(ok: bool, slack: usize) -> State<O> {
    let child = Watched { len: any(), watch: any(), val: any(), ok, reserved: 0, eager: false };
    let b = Sym::<O>::exact(1, 0);
    b.set(0, O::default());
    let o: L<O> = Offsets::try_from_parts(child, b).ok().expect("OB: valid offsets");
    let b = o.buffer_ref();
    b.havoc(38, slack);
    nd::assume(b.len() >= 1);
    let m = b.len() - 1;
    let i: usize = any();
    let p = b.pin(m);
    let (s, e) = if i < m { (b.pin(i), b.pin(i + 1)) } else { (p, p) };
    let p = if i < m && i + 1 == m { e } else { p };
    let (Ok(s), Ok(e), Ok(p)): (Result<usize, _>, Result<usize, _>, Result<usize, _>) = (s.try_into(), e.try_into(), p.try_into()) else { nd::stop() };
    nd::assume(s <= e && e <= p && p <= child.len);
    State { o, m, i, s, e, p, watch: child.watch, old: child.val }
}
impl<O: Offset> State<O> {
    /// Every old list is unchanged.
    fn old_post(&self) {
        if self.i < self.m {
            let Some(v) = self.o.view(self.i) else { check!(false, "an earlier list stays readable"); return };
            check!(v.len() == self.e - self.s, "an earlier list keeps its length");
            if self.s <= self.watch && self.watch < self.e {
                check!(v.view(self.watch - self.s) == Some(self.old), "an earlier list keeps its items");
            }
        }
    }
    /// List `at` is exactly `l`, stored at child position `from`.
    fn new_post(&self, at: usize, l: &Watched, from: usize) {
        let Some(v) = self.o.view(at) else { check!(false, "an appended list is readable"); return };
        check!(v.len() == l.len, "an appended list has its own length");
        if self.watch >= from && self.watch - from == l.watch && l.watch < l.len {
            check!(v.view(l.watch) == Some(l.val), "an appended list has its own items");
        }
    }
}
fn fits<O: Offset>(p: usize, l: usize) -> bool {
    p.checked_add(l).is_some_and(|x| O::try_from(x).is_ok())
}
fn any_list() -> Watched {
    Watched { len: any(), watch: any(), val: any(), ok: true, reserved: 0, eager: false }
}
fn extend_one<O: Offset + nd::Any>() {
    let mut t = state::<O>(true, 2);
    let l = any_list();
    nd::assume(fits::<O>(t.p, l.len));
    t.o.extend(core::iter::once(l));
    check!(t.o.len() == t.m + 1, "one more list");
    t.old_post();
    t.new_post(t.m, &l, t.p);
    check!(t.o.child_ref().len == t.p + l.len, "unreferenced child items are discarded");
    check!(t.o.view(t.m + 1).is_none(), "nothing beyond the appended list");
}
fn extend_two<O: Offset + nd::Any>() {
    let mut t = state::<O>(true, 3);
    let (l, k) = (any_list(), any_list());
    nd::assume(fits::<O>(t.p, l.len) && fits::<O>(t.p + l.len, k.len));
    t.o.extend([l, k]);
    check!(t.o.len() == t.m + 2, "two more lists");
    t.old_post();
    t.new_post(t.m, &l, t.p);
    t.new_post(t.m + 1, &k, t.p + l.len);
}
fn extend_none<O: Offset + nd::Any>() {
    let mut t = state::<O>(any(), 1);
    if any() {
        t.o.extend(core::iter::empty::<Watched>());
    } else {
        check!(t.o.try_extend(core::iter::empty::<Watched>()).is_ok(), "appending nothing succeeds");
    }
    check!(t.o.len() == t.m, "appending nothing keeps the number of lists");
    t.old_post();
}
fn overflow<O: Offset + nd::Any>() {
    let mut t = state::<O>(true, 2);
    let l = any_list();
    t.o.extend(core::iter::once(l));
    check!(fits::<O>(t.p, l.len), "a total beyond the offset maximum never completes");
}
fn try_one<O: Offset + nd::Any>() {
    let child_ok: bool = any();
    let buf_ok: bool = any();
    let mut t = state::<O>(child_ok, 2);
    t.o.buffer_ref().ok.set(buf_ok);
    let l = any_list();
    let r = t.o.try_extend(core::iter::once(l));
    check!(r.is_ok() == (child_ok && buf_ok && fits::<O>(t.p, l.len)), "the fallible append succeeds exactly when storage is granted and the total fits");
    t.old_post();
    if r.is_ok() {
        check!(t.o.len() == t.m + 1, "one more list");
        t.new_post(t.m, &l, t.p);
    } else {
        check!(t.o.len() == t.m, "a failed append adds no list");
    }
}

/// Real child items: `A` lists of `a` items over a child with a spare suffix.
fn small<O: Offset, const A: usize>(fallible: bool) {
    let vals: [u32; 6] = any();
    let more: [u32; 3] = any();
    let child = Av::from_fn(2 * A + 1, |i| vals[i]);
    let mut o = Offsets::<Av<u32>, O, AvBuf, Vec<u32>>::try_from_parts(child, Av::from_fn(A + 1, |i| <O as TryFrom<usize>>::try_from(2 * i).ok().expect("OB: small"))).ok().expect("OB: valid offsets");
    let src = [vec![more[0]], vec![], vec![more[1], more[2]]];
    if fallible { check!(o.try_extend(src).is_ok(), "an append with room succeeds") } else { o.extend(src) }
    check!(o.len() == A + 3, "three more lists");
    let mut i = 0;
    while i < A {
        let Some(v) = o.view(i) else { check!(false, "readable"); return };
        check!(v.len() == 2 && v.view(0) == Some(vals[2 * i]) && v.view(1) == Some(vals[2 * i + 1]), "an earlier list is unchanged");
        i += 1;
    }
    let (Some(a), Some(b), Some(c)) = (o.view(A), o.view(A + 1), o.view(A + 2)) else { check!(false, "readable"); return };
    check!(a.len() == 1 && a.view(0) == Some(more[0]), "first appended list");
    check!(b.len() == 0, "second appended list");
    check!(c.len() == 2 && c.view(0) == Some(more[1]) && c.view(1) == Some(more[2]), "third appended list");
}

obligations! { "C09";
    proof c09_extend_one_i32 [3] "Offsets::extend: any state with 32-bit offsets, one list of any length and content" { extend_one::<i32>() }
    proof_deep c09_extend_one_i64 [3] "Offsets::extend: any state with 64-bit offsets, one list of any length and content" { extend_one::<i64>() }
    proof c09_extend_two_i32 [4] "Offsets::extend: any state with 32-bit offsets, two lists of any length and content in one call" { extend_two::<i32>() }
    proof c09_extend_none_i64 [3] "appending nothing to any state, 64-bit offsets" { extend_none::<i64>() }
    proof_mp c09_overflow_i32 [3] "Offsets::extend never completes when the total exceeds the 32-bit maximum, any state" { overflow::<i32>() }
    proof_mp c09_overflow_i64 [3] "Offsets::extend never completes when the total exceeds the 64-bit maximum, any state" { overflow::<i64>() }
    proof c09_try_one_i32 [3] "Offsets::try_extend: any state, one list of any length, any storage failure, 32-bit offsets" { try_one::<i32>() }
    proof_deep c09_try_one_i64 [3] "Offsets::try_extend: any state, one list of any length, any storage failure, 64-bit offsets" { try_one::<i64>() }
    bounded c09_small_0 [9] "no list and one spare child item, append three lists" { small::<i64, 0>(false) }
    bounded c09_small_2 [9] "two lists and one spare child item, append three lists" { small::<i32, 2>(false) }
    bounded c09_try_small_2 [9] "fallible: two lists and one spare child item, append three lists" { small::<i64, 2>(true) }
}

/// A history of appends against a model, real storages.
#[cfg(not(kani))]
fn history<T, O, S, X>(mut o: Offsets<T, O, S, Vec<X>>, mut model: Vec<Vec<X>>, max: usize, gen_: &dyn Fn() -> X)
where
    T: CollectionRealloc<Owned = X>,
    O: Offset + Into<i64>,
    S: Buffer<For<O>: CollectionRealloc<Alloc = T::Alloc>>,
    X: Clone + PartialEq + core::fmt::Debug,
    Vec<X>: CollectionAlloc<Owned = X>,
{
    for _ in 0..nd::below(4) + 1 {
        let add: Vec<Vec<X>> = (0..nd::below(max)).map(|_| (0..nd::below(5)).map(|_| gen_()).collect()).collect();
        let src = Hinted { v: add.clone().into_iter(), lie: nd::below(3) };
        match nd::below(3) {
            0 => { o.extend(src); model.extend(add) }
            1 => { check!(o.try_extend(src).is_ok(), "an append with room succeeds"); model.extend(add) }
            _ => {
                grants::set(nd::below(6));
                if o.try_extend(src).is_ok() { model.extend(add) }
                grants::set(usize::MAX);
            }
        }
        check!(o.len() == model.len(), "number of lists");
        for (i, w) in model.iter().enumerate() {
            check!(o.owned(i).as_ref() == Some(w), "list i");
        }
        check!(o.owned(model.len()).is_none(), "nothing beyond the end");
        let raw: Vec<i64> = o.buffer_ref().borrow_().iter().map(|x| (*x).into()).collect();
        check!(raw[0] == 0 && raw.windows(2).all(|p| p[0] <= p[1]), "offsets stay valid");
        check!(*raw.last().unwrap() as usize <= o.child_ref().len(), "offsets stay within the child");
    }
    check!(o.into_iter_owned().eq(model), "consuming iteration");
}
#[cfg(not(kani))]
trait Borrow_<T> { fn borrow_(&self) -> &[T]; }
#[cfg(not(kani))]
impl<T, B: core::borrow::Borrow<[T]>> Borrow_<T> for B { fn borrow_(&self) -> &[T] { self.borrow() } }

#[cfg(not(kani))]
fn run_history(max: usize) {
    let (w, child) = crate::gen_::offsets(6, 4, 5);
    let o32: Vec<i32> = w.iter().map(|x| *x as i32).collect();
    macro_rules! model { ($f:expr) => { w.windows(2).map(|p| (p[0] as usize..p[1] as usize).map($f).collect::<Vec<_>>()).collect::<Vec<_>>() } }
    let v: Vec<u32> = (0..child).map(|_| any()).collect();
    match nd::below(6) {
        0 => history(Offsets::<Vec<u32>, i32>::try_from_parts(v.clone(), o32).ok().expect("OB: valid"), model!(|i| v[i]), max, &any),
        1 => history(Offsets::<Vec<u32>, i64>::try_from_parts(v.clone(), w.clone()).ok().expect("OB: valid"), model!(|i| v[i]), max, &any),
        2 => history(Offsets::<Av<u32>, i64, AvBuf>::try_from_parts(Av::from_fn(child, |i| v[i]), Av::from_fn(w.len(), |i| w[i])).ok().expect("OB: valid"), model!(|i| v[i]), max, &any),
        3 => {
            let off = nd::below(11);
            let bytes: Vec<u8> = (0..(child + off) / 8 + 1 + nd::below(3)).map(|_| any()).collect();
            let b = Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), child, off).ok().expect("OB: fits");
            history(Offsets::<Bitmap, i32>::try_from_parts(b, o32).ok().expect("OB: valid"), model!(|i| crate::spec::bit(&bytes, off + i)), max, &any)
        }
        4 => {
            let off = nd::below(11);
            let bytes: Vec<u8> = (0..(child + off) / 8 + 1 + nd::below(3)).map(|_| any()).collect();
            let b = Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), child, off).ok().expect("OB: fits");
            let n = Validity::<Vec<u32>>::try_from_parts(v.clone(), b).ok().expect("OB: match");
            history(Offsets::<Validity<Vec<u32>>, i32>::try_from_parts(n, o32).ok().expect("OB: valid"), model!(|i| crate::spec::bit(&bytes, off + i).then_some(v[i])), max, &|| if any() { Some(any()) } else { None })
        }
        _ => {
            let inner: Offsets<Vec<u32>> = (0..child).map(|i| vec![v[i]; i % 3]).collect();
            history(Offsets::<Offsets<Vec<u32>>, i64>::try_from_parts(inner, w.clone()).ok().expect("OB: valid"), model!(|i| vec![v[i]; i % 3]), max, &|| (0..nd::below(3)).map(|_| any()).collect())
        }
    }
}

/// Totals around the 32-bit maximum, on a child without memory per item.
#[cfg(not(kani))]
fn run_overflow() {
    let p = i32::MAX as usize - nd::below(6);
    let k = nd::below(p);
    let len = p + nd::below(4);
    let child = Watched { len, watch: nd::below(k.max(1)), val: any(), ok: true, reserved: 0, eager: false };
    let mut o = Offsets::<Watched, i32, AvBuf, Watched>::try_from_parts(child, Av::from_fn(3, |i| [0, k as i32, p as i32][i])).ok().expect("OB: valid");
    let ls: Vec<Watched> = (0..1 + nd::below(3)).map(|_| Watched { len: nd::below(8), watch: 0, val: any(), ok: true, reserved: 0, eager: false }).collect();
    let mut done = 0;
    let mut at = p;
    for l in &ls {
        if at + l.len > i32::MAX as usize { break }
        at += l.len;
        done += 1;
    }
    let fallible: bool = any();
    let (complete, kept) = if fallible {
        let r = o.try_extend(ls.iter().copied()).is_ok();
        (r, if r { ls.len() } else { 0 })
    } else {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.extend(ls.iter().copied()))).is_ok();
        (r, done)
    };
    check!(complete == (done == ls.len()), "an append completes exactly when the total fits the offset type");
    check!(o.len() == 2 + kept, "only lists that fit are kept");
    let v0 = o.view(0).expect("OB: readable");
    check!(v0.len() == k && o.view(1).expect("OB: readable").len() == p - k, "earlier lists keep their length");
    if k > 0 { check!(v0.view(child.watch) == Some(child.val), "earlier lists keep their items"); }
    let mut at = p;
    for (i, l) in ls.iter().take(kept).enumerate() {
        check!(o.view(2 + i).expect("OB: readable").len() == l.len, "appended list length");
        at += l.len;
    }
    let raw = o.buffer_ref().borrow_();
    check!(raw.windows(2).all(|w| w[0] <= w[1]) && *raw.last().unwrap() as usize == at, "offsets stay valid");
}

runs! { "C09";
    c09_run_history "histories of appends (plain, fallible, failing) over six child kinds, unreferenced suffixes" { run_history(5) }
    c09_run_long "as above with up to 80 lists per append" { run_history(80) }
    c09_run_overflow "totals around the 32-bit maximum" { run_overflow() }
}
