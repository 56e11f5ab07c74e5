//! Native generators shared by the executed contracts: items, starting states
//! (including unusual raw parts) and the list of collection types.

use std::cell::Cell;
use std::fmt::Debug;

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{Buffer, VecBuffer},
    collection::{Collection, CollectionAlloc, CollectionAllocIn, CollectionRealloc, flatten::Flatten, owned::IntoOwned},
    layout::{ArrayItem, boolean::Boolean, fixed_size_list::FixedSizeList, fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList},
    length::Length,
    nullability::{NonNullable, Nullability, Nullable},
    fixed_size::FixedSize,
    offset::{Offset, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

thread_local! { static R: Cell<u64> = const { Cell::new(0) }; }
/// Draws one seed (the only value a replay needs) for the functions below.
pub fn reseed() {
    let s = nd::below(usize::MAX) as u64;
    R.with(|r| r.set(s));
}
pub fn rnd() -> u64 {
    R.with(|r| {
        let s = r.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        r.set(s);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}
pub fn pick(n: usize) -> usize {
    (rnd() % n as u64) as usize
}
pub fn coin() -> bool {
    rnd() & 1 == 1
}

/// Items of any composition. `simple` items hold one value at every level.
pub trait Gen: Clone + PartialEq + Debug + 'static {
    fn gen_() -> Self;
    fn simple() -> Self;
}
macro_rules! ints { ($($t:ty),*) => { $( impl Gen for $t {
    fn gen_() -> Self { if pick(8) == 0 { <$t>::MAX } else { rnd() as $t } }
    fn simple() -> Self { Self::gen_() }
} )* } }
ints!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Gen for f64 {
    fn gen_() -> Self { f64::from(rnd() as i32) / 7.0 }
    fn simple() -> Self { Self::gen_() }
}
impl Gen for bool {
    fn gen_() -> Self { coin() }
    fn simple() -> Self { coin() }
}
impl<T: Gen> Gen for Option<T> {
    fn gen_() -> Self { if pick(3) == 0 { None } else { Some(T::gen_()) } }
    fn simple() -> Self { Some(T::simple()) }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen_() -> Self { (0..pick(4)).map(|_| T::gen_()).collect() }
    fn simple() -> Self { vec![T::simple()] }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen_() -> Self { core::array::from_fn(|_| T::gen_()) }
    fn simple() -> Self { core::array::from_fn(|_| T::simple()) }
}
pub fn items<T: Gen>(max: usize) -> Vec<T> {
    let n = if max >= 12 && pick(120) == 0 { 900 + pick(2600) } else { pick(max) };
    (0..n).map(|_| T::gen_()).collect()
}

/// Collections that can be put into an arbitrary state from raw parts.
pub trait Start: Collection + Sized {
    /// A collection of exactly `n` items and the items it holds.
    fn start(n: usize) -> (Self, Vec<Self::Owned>);
}
pub fn bitmap<S: Buffer<For<u8>: FromIterator<u8>>>(n: usize) -> (Bitmap<S>, Vec<bool>) {
    let offset = if coin() { 0 } else { pick(19) };
    let spare = if coin() { 0 } else { pick(4) };
    let bytes: Vec<u8> = (0..spec::bytes_for(offset + n) + spare).map(|_| rnd() as u8).collect();
    let m = (0..n).map(|i| spec::bit(&bytes, offset + i)).collect();
    (Bitmap::try_from_parts(bytes.into_iter().collect(), n, offset).ok().expect("OB: fits"), m)
}
impl<S: Buffer<For<u8>: FromIterator<u8>>> Start for Bitmap<S> {
    fn start(n: usize) -> (Self, Vec<bool>) {
        bitmap(n)
    }
}
macro_rules! plain { ($($t:ty),*) => { $(
    impl Start for Vec<$t> {
        fn start(n: usize) -> (Self, Vec<$t>) { let v: Vec<$t> = (0..n).map(|_| Gen::gen_()).collect(); (v.clone(), v) }
    }
    impl Start for Av<$t> {
        fn start(n: usize) -> (Self, Vec<$t>) { let v: Vec<$t> = (0..n).map(|_| Gen::gen_()).collect(); (v.iter().copied().collect(), v) }
    }
)* } }
plain!(u8, u16, u32, u64, i64, f64);
impl<T: Start, S: Buffer<For<u8>: FromIterator<u8>>> Start for Validity<T, S> {
    fn start(n: usize) -> (Self, Vec<Option<T::Owned>>) {
        let (c, m) = T::start(n);
        if pick(3) == 0 {
            (Validity::from_collection(c), m.into_iter().map(Some).collect())
        } else {
            let (b, v) = bitmap::<S>(n);
            let m = m.into_iter().zip(v).map(|(x, v)| v.then_some(x)).collect();
            (Validity::try_from_parts(c, b).ok().expect("OB: lengths match"), m)
        }
    }
}
impl<T: Start<Owned: Clone>, O: Offset, S: Buffer<For<O>: FromIterator<O>>> Start for Offsets<T, O, S, Vec<T::Owned>> {
    fn start(n: usize) -> (Self, Vec<Vec<T::Owned>>) {
        let mut w = vec![0usize];
        for _ in 0..n {
            let l = w[w.len() - 1];
            w.push(l + if pick(3) == 0 { 0 } else { pick(4) });
        }
        let (c, m) = T::start(w[n] + if coin() { 0 } else { pick(6) });
        let o = Offsets::try_from_parts(c, w.iter().map(|x| <O as TryFrom<usize>>::try_from(*x).ok().expect("OB: small")).collect());
        (o.ok().expect("OB: valid offsets"), w.windows(2).map(|p| m[p[0]..p[1]].to_vec()).collect())
    }
}
impl<T: Start<Owned: Clone>, const N: usize> Start for Flatten<T, N> {
    fn start(n: usize) -> (Self, Vec<[T::Owned; N]>) {
        let (c, m) = T::start(n * N);
        let m = m.chunks(N).map(|x| core::array::from_fn(|i| x[i].clone())).collect();
        (Flatten::try_from_parts(c).ok().expect("OB: multiple"), m)
    }
}
impl<Nu: Nullability, S: Buffer> Start for Boolean<Nu, S>
where
    Nu::Collection<Bitmap<S>, S>: Start,
{
    fn start(n: usize) -> (Self, Vec<Self::Owned>) {
        let (c, m) = Start::start(n);
        (Boolean::from_buffer(c), m)
    }
}
impl<T: FixedSize, Nu: Nullability, S: Buffer> Start for FixedSizePrimitive<T, Nu, S>
where
    Nu::Collection<S::For<T>, S>: Start,
{
    fn start(n: usize) -> (Self, Vec<Self::Owned>) {
        let (c, m) = Start::start(n);
        (FixedSizePrimitive::from_buffer(c), m)
    }
}
impl<T: ArrayItem, const N: usize, Nu: Nullability, S: Buffer> Start for FixedSizeList<T, N, Nu, S>
where
    Nu::Collection<Flatten<T::Memory<S>, N>, S>: Start + Collection<Owned = Nu::Item<[T; N]>>,
{
    fn start(n: usize) -> (Self, Vec<Self::Owned>) {
        let (c, m) = Start::start(n);
        (FixedSizeList::from_buffer(c), m)
    }
}
impl<T: ArrayItem, Nu: Nullability, O: Offset, S: Buffer> Start for VariableSizeList<T, Nu, O, S>
where
    Nu::Collection<Offsets<T::Memory<S>, O, S>, S>: Start,
{
    fn start(n: usize) -> (Self, Vec<Self::Owned>) {
        let (c, m) = Start::start(n);
        (VariableSizeList::from_buffer(c), m)
    }
}
impl<T: ArrayItem, S: Buffer> Start for Array<T, S>
where
    T::Memory<S>: Start,
{
    fn start(n: usize) -> (Self, Vec<T>) {
        let (c, m) = Start::start(n);
        (Array::from_buffer(c), m)
    }
}

/// Calls `$f::<C>()` for one collection type drawn from the list.
#[macro_export]
macro_rules! one_of { ($f:ident; $($t:ty),* $(,)?) => {{
    let all: &[fn()] = &[ $( $f::<$t> ),* ];
    all[$crate::gen_::pick(all.len())]()
}} }
/// Growable collections: bare, nested, layouts and arrays, over `Vec` storage
/// and over the stand-in storage with injected allocation failures.
#[macro_export]
macro_rules! growables { ($f:ident) => {{
    use narrow::{array::Array, bitmap::Bitmap, buffer::VecBuffer, collection::flatten::Flatten, offset::Offsets, validity::Validity,
        layout::variable_size_list::VariableSizeList, nullability::{NonNullable, Nullable}};
    type Bv = Bitmap<VecBuffer>;
    type Ba = Bitmap<AvBuf>;
    type V = VecBuffer;
    type A = AvBuf;
    $crate::one_of!($f;
        Vec<u32>, Bv, Validity<Vec<u32>>, Validity<Bv>, Offsets<Vec<u32>>, Offsets<Vec<u8>, i64>, Offsets<Bv>, Flatten<Vec<u32>, 3>, Flatten<Bv, 3>,
        Validity<Offsets<Vec<u32>>>, Offsets<Validity<Vec<u32>>>, Flatten<Validity<Vec<u16>>, 2>, Validity<Flatten<Bv, 2>>, Offsets<Offsets<Vec<u32>>, i64>,
        Flatten<Offsets<Vec<u8>>, 2>, Validity<Flatten<Validity<Bv>, 3>>, Offsets<Flatten<Vec<u32>, 2>>, Offsets<Validity<Bv>>, Flatten<Flatten<Vec<u8>, 2>, 2>,
        Av<u32>, Ba, Validity<Av<u32>, A>, Validity<Ba, A>, Offsets<Av<u32>, i32, A>, Offsets<Av<u8>, i64, A>, Offsets<Ba, i32, A>, Flatten<Av<u32>, 3>, Flatten<Ba, 3>,
        Validity<Offsets<Av<u32>, i32, A>, A>, Offsets<Validity<Av<u32>, A>, i32, A>, Flatten<Validity<Av<u16>, A>, 2>, Validity<Flatten<Ba, 2>, A>, Offsets<Offsets<Av<u32>, i32, A>, i64, A>,
        Flatten<Offsets<Av<u8>, i32, A>, 2>, Validity<Flatten<Validity<Ba, A>, 3>, A>, Offsets<Flatten<Av<u32>, 2>, i32, A>, Offsets<Validity<Ba, A>, i32, A>,
        Array<u32>, Array<f64>, Array<bool>, Array<Option<bool>>, Array<Option<u64>>, Array<Vec<u32>>, Array<Option<Vec<Option<bool>>>>, Array<[Option<u32>; 3]>, Array<Option<[bool; 2]>>,
        Array<Vec<[Option<Vec<u8>>; 2]>>, Array<[Vec<bool>; 2]>, Array<Option<Vec<Vec<u16>>>>, VariableSizeList<u8, Nullable, i64>, VariableSizeList<bool, NonNullable, i64>,
        Array<u32, A>, Array<bool, A>, Array<Option<bool>, A>, Array<Option<u64>, A>, Array<Vec<u32>, A>, Array<Option<Vec<Option<bool>>>, A>, Array<[Option<u32>; 3], A>, Array<Option<[bool; 2]>, A>,
        Array<Vec<[Option<Vec<u8>>; 2]>, A>, Array<[Vec<bool>; 2], A>, Array<Option<Vec<Vec<u16>>>, A>, VariableSizeList<u8, Nullable, i64, A>,
    )
}} }

pub const EXTREME: [usize; 6] = [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 61, u32::MAX as usize];

/// Every way of reading agrees with the model.
pub fn reads<C: Collection>(c: &C, model: &[C::Owned])
where
    C::Owned: Gen,
{
    let n = model.len();
    check!(c.len() == n, "length");
    check!(c.is_empty() == (n == 0), "emptiness");
    for i in 0..n {
        check!(c.owned(i).as_ref() == Some(&model[i]), "owned item i");
        let v = c.view(i);
        check!(v.is_some(), "item i is readable");
        check!(v.map(IntoOwned::into_owned).as_ref() == Some(&model[i]), "item i");
    }
    for i in [n, n + 1, n + 7].into_iter().chain(EXTREME) {
        check!(c.view(i).is_none() && c.owned(i).is_none(), "nothing beyond the end");
    }
    let mut it = c.iter_views();
    for (k, w) in model.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        check!(lo <= n - k && hi.is_none_or(|h| h >= n - k), "bounds of borrowed iteration enclose the remaining count");
        let x = it.next().map(IntoOwned::into_owned);
        check!(x.as_ref() == Some(w), "borrowed item i");
    }
    check!(it.next().is_none(), "borrowed iteration yields len items");
    roam(c, model);
}
/// As [`reads`], consuming the collection.
pub fn consume<C: Collection>(c: C, model: &[C::Owned])
where
    C::Owned: Gen,
{
    let n = model.len();
    if coin() {
        return drain(c.into_iter_owned(), model);
    }
    let mut it = c.into_iter_owned();
    for (k, w) in model.iter().enumerate() {
        check!(it.len() == n - k && it.size_hint() == (n - k, Some(n - k)), "consuming iteration announces the exact remaining count");
        check!(it.next().as_ref() == Some(w), "consumed item i");
    }
    check!(it.len() == 0 && it.size_hint() == (0, Some(0)), "consuming iteration announces its end");
    check!(it.next().is_none(), "consuming iteration yields len items");
    check!(it.size_hint() == (0, Some(0)), "an ended iteration announces nothing");
}
/// What an iteration has to announce.
#[derive(Clone, Copy, PartialEq)]
pub enum Hints { Exact, Bounds, Ignore }
/// Drives an iterator in mixed ways (next, nth, skip, step, partial and whole
/// drains, folds, searches) against the items it has to yield.
pub fn walk<I: Iterator, W>(mut it: I, want: &[W], hints: Hints, same: impl Fn(I::Item, &W) -> bool + Copy) {
    let opt = |x: Option<I::Item>, w: Option<&W>| match (x, w) {
        (None, None) => true,
        (Some(x), Some(w)) => same(x, w),
        _ => false,
    };
    let mut k = 0;
    let end = want.len() + 3;
    loop {
        let rest = &want[k.min(want.len())..];
        let left = rest.len();
        let (lo, hi) = it.size_hint();
        check!(hints == Hints::Ignore || lo <= left && hi.is_none_or(|h| left <= h), "the bounds of an iteration enclose the remaining count");
        check!(hints != Hints::Exact || (lo, hi) == (left, Some(left)), "consuming iteration announces the exact remaining count");
        match pick(14) {
            0 | 1 => {
                let j = if pick(4) == 0 { pick(left + 9) } else { pick(5) };
                check!(opt(it.nth(j), rest.get(j)), "skipping ahead yields the right item");
                k += j + 1;
            }
            2 => {
                let j = pick(12);
                let mut n = 0;
                for x in it.by_ref().take(j) {
                    check!(rest.get(n).is_some_and(|w| same(x, w)), "a partial drain yields the right items");
                    n += 1;
                }
                check!(n == j.min(left), "a partial drain yields as many items as there are");
                k += j;
            }
            3 => {
                let j = pick(6);
                check!(opt(it.by_ref().skip(j).next(), rest.get(j)), "skipping yields the right item");
                k += j + 1;
            }
            4 if pick(3) == 0 => {
                let s = 1 + pick(11);
                let mut n = 0;
                for x in it.step_by(s) {
                    check!(rest.get(n).is_some_and(|w| same(x, w)), "stepping yields the right items");
                    n += s;
                }
                check!(n >= left, "stepping reaches the end");
                return;
            }
            5 if pick(3) == 0 => {
                check!(it.count() == left, "counting counts the remaining items");
                return;
            }
            6 if pick(3) == 0 => {
                check!(opt(it.last(), rest.last()), "the last item");
                return;
            }
            7 if pick(3) == 0 => {
                let n = it.fold(0, |n, x| {
                    check!(rest.get(n).is_some_and(|w| same(x, w)), "folding meets the remaining items in order");
                    n + 1
                });
                check!(n == left, "folding meets all remaining items");
                return;
            }
            8 if pick(3) == 0 => {
                let got: Vec<I::Item> = it.collect();
                check!(got.len() == left && got.into_iter().zip(rest).all(|(x, w)| same(x, w)), "collecting yields the remaining items");
                return;
            }
            9 => {
                let j = pick(10);
                let mut n = 0;
                let r = it.try_for_each(|x| {
                    check!(rest.get(n).is_some_and(|w| same(x, w)), "a partial fold meets the items in order");
                    n += 1;
                    if n > j { Err(()) } else { Ok(()) }
                });
                check!(r.is_err() == (left > j) && n == left.min(j + 1), "a partial fold stops where it is told");
                k += j + 1;
            }
            10 => {
                let j = pick(10);
                let mut n = 0;
                let got = it.position(|_| {
                    n += 1;
                    n > j
                });
                check!(got == (j < left).then_some(j), "searching stops at the right item");
                k += j + 1;
            }
            _ => {
                check!(opt(it.next(), rest.first()), "the next item");
                k += 1;
            }
        }
        if k > end {
            return;
        }
    }
}
pub fn drain<I: ExactSizeIterator<Item = T>, T: PartialEq + Debug>(it: I, want: &[T]) {
    check!(it.len() == want.len(), "consuming iteration announces the exact remaining count");
    walk(it, want, Hints::Exact, |x, w| x == *w);
}
pub fn roam<C: Collection>(c: &C, want: &[C::Owned])
where
    C::Owned: PartialEq,
{
    walk(c.iter_views(), want, Hints::Bounds, |x, w| x.into_owned() == *w);
}
/// Both iterations of a collection, judged by their items only.
pub fn travel<C: Collection>(c: C, want: &[C::Owned])
where
    C::Owned: PartialEq,
{
    walk(c.iter_views(), want, Hints::Ignore, |x, w| x.into_owned() == *w);
    walk(c.into_iter_owned(), want, Hints::Ignore, |x, w| x == *w);
}
/// Appends `add` by either operation and any source bounds.
pub fn append<C: CollectionRealloc>(c: &mut C, model: &mut Vec<C::Owned>, add: Vec<C::Owned>)
where
    C::Owned: Gen,
{
    let src = Hinted { v: add.clone().into_iter(), lie: pick(3) };
    if coin() {
        c.extend(src);
    } else {
        check!(c.try_extend(src).is_ok(), "an append with room succeeds");
    }
    model.extend(add);
}
/// Lengths that matter: small, around bytes, sometimes around the batch size.
pub fn some_len() -> usize {
    if pick(200) == 0 {
        return 700 + pick(2000);
    }
    match pick(12) {
        0 => 0,
        1 => 1,
        2 => 8,
        3 => 20 + pick(60),
        _ => pick(20),
    }
}

pub fn offsets(lists: usize, per: usize, spare: usize) -> (Vec<i64>, usize) {
    let n = nd::below(lists);
    let mut w = vec![0i64];
    for _ in 0..n {
        let l = w[w.len() - 1];
        w.push(l + if nd::below(3) == 0 { 0 } else { nd::below(per) as i64 });
    }
    let child = *w.last().unwrap() as usize + nd::below(spare + 1);
    (w, child)
}

