//! C10: fixed-size lists are exactly consecutive groups of the child.

use narrow::{
    bitmap::Bitmap,
    buffer::{Buffer, VecBuffer},
    collection::{ChildRef, Collection, CollectionAllocIn, CollectionRealloc, flatten::{Flatten, FlattenError}, owned::IntoOwned},
    length::Length,
    offset::Offsets,
    validity::Validity,
};

use crate::{nd, nd::any, store::*};

/// Construction, decomposition and reads at any child length and index.
fn parts<const N: usize>() {
    let (len, i): (usize, usize) = (any(), any());
    match Flatten::<Ident, N>::try_from_parts(Ident(len)) {
        Ok(f) => {
            check!(N > 0 && len % N == 0, "accepted only for a positive width dividing the child length");
            let m = len / N;
            check!(f.len() == m, "as many lists as complete groups");
            check!(*f.child_ref() == Ident(len), "the child is kept");
            let v = f.view(i);
            check!(v.is_some() == (i < m), "a list is readable exactly when in range");
            let mut k = 0;
            while k < N {
                if let Some(v) = &v { check!(v[k] == i * N + k, "item k of list i is child item i*N+k") }
                k += 1;
            }
            if let Some(v) = v {
                let o: [usize; N] = v.into_owned();
                let mut k = 0;
                while k < N {
                    check!(o[k] == i * N + k, "item k of the owned list is child item i*N+k");
                    k += 1;
                }
            }
            check!(f.owned(i).is_some() == (i < m), "an owned list is readable exactly when in range");
            check!(f.into_parts() == Ident(len), "into_parts returns the child");
        }
        Err(FlattenError::ZeroChunkSize) => check!(N == 0, "width zero is reported only for width zero"),
        Err(FlattenError::NotMultiple { len: l, n }) => {
            check!(N > 0 && len % N != 0, "an incomplete group is reported only when there is one");
            check!(l == len && n == N, "child length and width are reported");
        }
    }
}
/// Child iterator at an arbitrary position: the consuming step from any state.
#[derive(Clone, Copy)]
struct From_(usize, usize);
impl Length for From_ {
    fn len(&self) -> usize { self.1 - self.0 }
}
impl Collection for From_ {
    type View<'c> = usize;
    type Owned = usize;
    fn view(&self, index: usize) -> Option<usize> {
        if index < self.1 - self.0 { Some(self.0 + index) } else { None }
    }
    type Iter<'c> = core::ops::Range<usize>;
    fn iter_views(&self) -> core::ops::Range<usize> { self.0..self.1 }
    type IntoIter = core::ops::Range<usize>;
    fn into_iter_owned(self) -> core::ops::Range<usize> { self.0..self.1 }
}
fn steps<const N: usize>() {
    let (a, m): (usize, usize) = (any(), any());
    let Some(len) = m.checked_mul(N) else { nd::stop() };
    let Some(b) = a.checked_add(len) else { nd::stop() };
    let Ok(f) = Flatten::<From_, N>::try_from_parts(From_(a, b)) else { check!(false, "a multiple of the width is accepted"); return };
    {
        let mut it = f.iter_views();
        check!(it.size_hint() == (m, Some(m)), "borrowed lists are counted");
        let x = it.next();
        check!(x.is_some() == (m > 0), "borrowed iteration ends only after the last list");
        let y = it.next();
        check!(y.is_some() == (m > 1), "borrowed iteration ends only after the last list");
        let mut k = 0;
        while k < N {
            if let Some(x) = &x { check!(x[k] == a + k, "borrowed list 0 is child items 0..N") }
            if let Some(y) = &y { check!(y[k] == a + N + k, "borrowed list 1 is child items N..2N") }
            k += 1;
        }
    }
    let mut it = f.into_iter_owned();
    check!(it.len() == m && it.size_hint() == (m, Some(m)), "consumed lists are counted");
    match it.next() {
        None => check!(m == 0, "consuming iteration ends only after the last list"),
        Some(x) => {
            check!(m > 0, "no list beyond the last");
            let mut k = 0;
            while k < N {
                check!(x[k] == a + k, "the next consumed list is the next N child items");
                k += 1;
            }
            check!(it.len() == m - 1, "one list less remains");
        }
    }
}
/// Appending `K` lists to any child.
fn append_any<const N: usize, const K: usize>(fallible: bool) {
    let m: usize = any();
    let Some(len) = m.checked_mul(N) else { nd::stop() };
    nd::assume(len <= usize::MAX - N * K);
    let child = Watched { len, watch: any(), val: any(), ok: any(), reserved: 0, eager: false };
    nd::assume(fallible || child.ok);
    let more: [[u32; N]; K] = core::array::from_fn(|_| any());
    let Ok(mut f) = Flatten::<Watched, N>::try_from_parts(child) else { check!(false, "a multiple of the width is accepted"); return };
    let r = if fallible { f.try_extend(more).is_ok() } else { f.extend(more); true };
    check!(r == child.ok, "an append succeeds exactly when storage is granted");
    let add = if r { K } else { 0 };
    check!(f.len() == m + add, "length grows by the number of lists");
    let w = child.watch;
    if w < len {
        let Some(v) = f.view(w / N) else { check!(false, "an earlier list stays readable"); return };
        check!(v[w % N] == child.val, "an earlier list is unchanged");
    } else if w - len < add * N {
        let Some(v) = f.view(w / N) else { check!(false, "an appended list is readable"); return };
        check!(v[w % N] == more[(w - len) / N][(w - len) % N], "an appended list has exactly its items");
    }
    check!(f.view(m + add).is_none(), "nothing beyond the end");
}
fn collect<const N: usize, const K: usize>(how: usize) {
    let more: [[u32; N]; K] = core::array::from_fn(|_| any());
    let f: Flatten<Av<u32>, N> = match how {
        0 => more.into_iter().collect(),
        1 => CollectionAllocIn::from_iter_in(more, ()),
        _ => match CollectionAllocIn::try_from_iter_in(more, ()) { Ok(f) => f, Err(_) => { check!(false, "collecting with room succeeds"); return } },
    };
    check!(f.len() == K, "as many lists as collected");
    let mut i = 0;
    while i < K {
        let Some(v) = f.view(i) else { check!(false, "a collected list is readable"); return };
        let mut k = 0;
        while k < N {
            check!(v[k] == more[i][k], "list i is item i of the source");
            k += 1;
        }
        i += 1;
    }
    check!(f.view(K).is_none(), "nothing beyond the end");
    let mut it = f.into_iter_owned();
    let mut i = 0;
    while i < K {
        let Some(v) = it.next() else { check!(false, "consuming iteration yields every list"); return };
        let mut k = 0;
        while k < N {
            check!(v[k] == more[i][k], "consumed list i is item i of the source");
            k += 1;
        }
        i += 1;
    }
    check!(it.next().is_none(), "consuming iteration yields exactly the lists");
}

obligations! { "C10";
    proof c10_parts_0 [2] "width 0: construction, any child length" { parts::<0>() }
    proof c10_parts_1 [3] "width 1: construction, view/owned, into_parts, any child length and index" { parts::<1>() }
    proof c10_parts_2 [4] "width 2: construction, view/owned, into_parts, any child length and index" { parts::<2>() }
    proof c10_parts_3 [5] "width 3: construction, view/owned, into_parts, any child length and index" { parts::<3>() }
    proof c10_parts_5 [7] "width 5: construction, view/owned, into_parts, any child length and index" { parts::<5>() }
    proof c10_steps_1 [3] "width 1: iteration steps from any position, any number of lists" { steps::<1>() }
    proof c10_steps_2 [4] "width 2: iteration steps from any position, any number of lists" { steps::<2>() }
    proof c10_steps_3 [5] "width 3: iteration steps from any position, any number of lists" { steps::<3>() }
    proof c10_append_1_1 [4] "width 1: append 1 list to any child" { append_any::<1, 1>(false) }
    proof c10_append_2_1 [5] "width 2: append 1 list to any child" { append_any::<2, 1>(false) }
    proof c10_append_2_2 [7] "width 2: append 2 lists to any child" { append_any::<2, 2>(false) }
    proof c10_append_3_0 [5] "width 3: append nothing to any child" { append_any::<3, 0>(false) }
    proof c10_try_append_2_2 [7] "width 2: fallible append of 2 lists to any child, failing or not" { append_any::<2, 2>(true) }
    proof c10_try_append_3_1 [7] "width 3: fallible append of 1 list to any child, failing or not" { append_any::<3, 1>(true) }
    bounded c10_collect_2_2 [7] "collect 2 lists of width 2" { collect::<2, 2>(0) }
    bounded c10_collect_in_3_1 [7] "collect 1 list of width 3 with an allocator" { collect::<3, 1>(1) }
    bounded c10_try_collect_2_2 [7] "fallible collect of 2 lists of width 2" { collect::<2, 2>(2) }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_::*;
    pub fn parts_run<const N: usize>() {
        let len = pick(40);
        let v: Vec<u32> = (0..len).map(|_| rnd() as u32).collect();
        match Flatten::<Vec<u32>, N>::try_from_parts(v.clone()) {
            Ok(f) => {
                check!(N > 0 && len % N == 0, "accepted iff multiple");
                check!(f.into_parts() == v, "into_parts returns the child");
            }
            Err(e) => check!(if N == 0 { e == FlattenError::ZeroChunkSize } else { len % N != 0 && e == FlattenError::NotMultiple { len, n: N } }, "the failed condition is reported"),
        }
    }
    pub fn history<C: CollectionRealloc<Alloc = ()> + Start + FromIterator<C::Owned>>()
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        reads(&c, &m);
        for _ in 0..pick(4) {
            if pick(4) == 0 {
                let k = pick(m.len() + 2);
                c.truncate(k);
                m.truncate(k);
            } else if pick(4) == 0 {
                let add = items(7);
                grants::set(pick(5));
                let ok = c.try_extend(add.clone()).is_ok();
                grants::set(usize::MAX);
                if ok { m.extend(add) }
            } else {
                crate::gen_::append(&mut c, &mut m, items(9));
            }
            reads(&c, &m);
        }
        consume(c, &m);
        let m: Vec<C::Owned> = items(12);
        let src = || Hinted { v: m.clone().into_iter(), lie: pick(3) };
        let c: C = match pick(3) {
            0 => src().collect(),
            1 => C::from_iter_in(src(), ()),
            _ => C::try_from_iter_in(src(), ()).ok().expect("OB: collecting with room succeeds"),
        };
        reads(&c, &m);
        consume(c, &m);
    }
}

runs! { "C10";
    c10_run_parts "construction over real children, widths 0 to 8" {
        use native::*;
        crate::gen_::reseed();
        let f: [fn(); 8] = [parts_run::<0>, parts_run::<1>, parts_run::<2>, parts_run::<3>, parts_run::<4>, parts_run::<5>, parts_run::<7>, parts_run::<8>];
        f[crate::gen_::pick(8)]()
    }
    c10_run_history "histories over fixed-size lists of eighteen child kinds, layouts and arrays" {
        use native::history;
        use narrow::{array::Array, layout::fixed_size_list::FixedSizeList, nullability::{NonNullable, Nullable}};
        crate::gen_::reseed();
        type A = AvBuf;
        crate::one_of!(history; Flatten<Vec<u32>, 1>, Flatten<Vec<u32>, 2>, Flatten<Vec<u8>, 5>, Flatten<Bitmap, 3>, Flatten<Bitmap, 8>, Flatten<Validity<Vec<u32>>, 2>, Flatten<Validity<Bitmap>, 3>,
            Flatten<Offsets<Vec<u32>>, 2>, Flatten<Flatten<Vec<u8>, 2>, 3>, Flatten<Av<u32>, 3>, Flatten<Bitmap<A>, 5>, Flatten<Validity<Av<u32>, A>, 2>, Flatten<Offsets<Av<u8>, i32, A>, 2>,
            Array<[u32; 3]>, Array<[bool; 7]>, Array<Option<[Option<u8>; 2]>>, Array<[[Option<bool>; 2]; 2], A>, FixedSizeList<u16, 4, Nullable>)
    }
}
