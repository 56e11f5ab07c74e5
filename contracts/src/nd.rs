//! Nondeterminism facade: the same obligation text is a proof harness for the
//! verifier (every `any` is a universally quantified input) and an executable
//! contract natively (every `any` is read from a replayed counterexample or
//! drawn from a seeded generator).

#[cfg(kani)]
mod imp {
    pub trait Any: Sized {
        fn any() -> Self;
    }
    impl<T: kani::Arbitrary> Any for T {
        fn any() -> Self {
            kani::any()
        }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c);
    }
    /// Ends the current path: nothing after it is judged.
    pub fn stop() -> ! {
        kani::assume(false);
        unreachable!()
    }
    #[inline(always)]
    pub fn reached() {
        kani::cover!(true, "OBEND");
    }
    #[inline(always)]
    pub fn below(n: usize) -> usize {
        let v: usize = kani::any();
        kani::assume(v < n);
        v
    }
    pub const NATIVE: bool = false;
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    pub enum Source {
        Rng(u64),
        Replay(VecDeque<Vec<u8>>),
    }
    thread_local! {
        pub static SRC: RefCell<Source> = const { RefCell::new(Source::Rng(1)) };
        pub static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }
    pub struct AssumeFailed;

    pub fn seed(s: u64) {
        SRC.with(|x| *x.borrow_mut() = Source::Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1));
        LOG.with(|l| l.borrow_mut().clear());
    }
    pub fn replay(v: Vec<Vec<u8>>) {
        SRC.with(|x| *x.borrow_mut() = Source::Replay(v.into()));
        LOG.with(|l| l.borrow_mut().clear());
    }
    pub fn take_log() -> Vec<Vec<u8>> {
        LOG.with(|l| core::mem::take(&mut *l.borrow_mut()))
    }
    fn next64(s: &mut u64) -> u64 {
        // splitmix64
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Raw little-endian bytes of the next value; `bias` mixes in extreme and small values.
    pub fn raw(size: usize, modulus: Option<usize>) -> Vec<u8> {
        let out = SRC.with(|x| match &mut *x.borrow_mut() {
            Source::Replay(q) => {
                let mut b = q.pop_front().unwrap_or_default();
                b.resize(size, 0);
                b
            }
            Source::Rng(s) => {
                let mut v: u128 = (u128::from(next64(s)) << 64) | u128::from(next64(s));
                if let Some(m) = modulus {
                    v = (v >> 32) % (m as u128);
                } else if size > 1 {
                    match next64(s) % 8 {
                        0 => v = 0,
                        1 | 2 | 3 => v %= 40,
                        4 => v = u128::MAX - (v % 3),
                        5 => v = (1u128 << (8 * size - 1)) - 1 + (v % 3),
                        _ => {}
                    }
                } else if next64(s) % 4 == 0 {
                    v = if v & 1 == 0 { 0 } else { 0xff };
                }
                let b = v.to_le_bytes();
                b[..size].to_vec()
            }
        });
        LOG.with(|l| l.borrow_mut().push(out.clone()));
        out
    }
    pub trait Any: Sized {
        fn any() -> Self;
    }
    macro_rules! ints { ($($t:ty),*) => { $( impl Any for $t { fn any() -> Self {
        let b = raw(size_of::<$t>(), None);
        <$t>::from_le_bytes(b.try_into().unwrap())
    } } )* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Any for f32 {
        fn any() -> Self {
            f32::from_bits(u32::any())
        }
    }
    impl Any for f64 {
        fn any() -> Self {
            f64::from_bits(u64::any())
        }
    }
    impl Any for bool {
        fn any() -> Self {
            raw(1, Some(2))[0] & 1 == 1
        }
    }
    impl<T: Any, const N: usize> Any for [T; N] {
        fn any() -> Self {
            core::array::from_fn(|_| T::any())
        }
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
    pub fn stop() -> ! {
        std::panic::panic_any(AssumeFailed)
    }
    pub fn reached() {}
    pub fn below(n: usize) -> usize {
        let b = raw(size_of::<usize>(), Some(n.max(1)));
        let v = usize::from_le_bytes(b.try_into().unwrap());
        assume(v < n);
        v
    }
    pub const NATIVE: bool = true;
}

pub use imp::*;

pub fn any<T: Any>() -> T {
    T::any()
}

/// A named obligation: the verifier must prove it on every path.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {
        assert!($c, concat!("OB: ", $m))
    };
}

pub struct Ob {
    pub prop: &'static str,
    pub name: &'static str,
    /// `proof` (every input, no bound), `bounded` (verifier, stated bound),
    /// `deep` (bounded, thorough tier only) or `run` (executed contract only,
    /// never given to the verifier). The suffix `_mp` means that panics of the
    /// code under contract are allowed: only named obligations and memory
    /// safety are judged.
    pub kind: &'static str,
    pub note: &'static str,
    pub f: fn(),
}

/// Declares obligations: `kind name [unwind] "note" { body }`.
#[macro_export]
macro_rules! obligations {
    ($prop:literal; $( $kind:ident $name:ident [$unwind:literal] $note:literal $body:block )*) => {
        $( $crate::ob_fn! { $kind $name $unwind $body } )*
        #[cfg(not(kani))]
        pub const OBS: &[$crate::nd::Ob] = &[ $( $crate::nd::Ob {
            prop: $prop, name: stringify!($name), kind: stringify!($kind), note: $note, f: $name,
        } ),* ];
    };
}
#[macro_export]
macro_rules! ob_fn {
    (deep $name:ident $unwind:literal $body:block) => {
        #[cfg_attr(all(kani, feature = "deep"), kani::proof)]
        #[cfg_attr(all(kani, feature = "deep"), kani::unwind($unwind))]
        pub fn $name() { let () = $body; $crate::nd::reached(); }
    };
    (proof_deep $name:ident $unwind:literal $body:block) => { $crate::ob_fn! { deep $name $unwind $body } };
    (deep_mp $name:ident $unwind:literal $body:block) => { $crate::ob_fn! { deep $name $unwind $body } };
    (proof_sd $name:ident $unwind:literal $body:block) => { $crate::ob_fn! { stub_drop $name $unwind $body } };
    (bounded_sd $name:ident $unwind:literal $body:block) => { $crate::ob_fn! { stub_drop $name $unwind $body } };
    (proof_cd $name:ident $unwind:literal $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(<narrow_ffi::ArrowArray as core::ops::Drop>::drop, crate::c20::count_array))]
        #[cfg_attr(kani, kani::stub(<narrow_ffi::ArrowSchema as core::ops::Drop>::drop, crate::c20::count_schema))]
        pub fn $name() { let () = $body; $crate::nd::reached(); }
    };
    // The destructors of the exported structures are replaced by doing nothing:
    // what releasing does is the contract of C20.
    (stub_drop $name:ident $unwind:literal $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(<narrow_ffi::ArrowArray as core::ops::Drop>::drop, crate::ffi::no_drop_array))]
        #[cfg_attr(kani, kani::stub(<narrow_ffi::ArrowSchema as core::ops::Drop>::drop, crate::ffi::no_drop_schema))]
        pub fn $name() { let () = $body; $crate::nd::reached(); }
    };
    ($kind:ident $name:ident $unwind:literal $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn $name() { let () = $body; $crate::nd::reached(); }
    };
}

/// Executed contracts (native only).
#[macro_export]
macro_rules! runs {
    ($prop:literal; $( $name:ident $note:literal $body:block )*) => {
        $(
            #[cfg(not(kani))]
            pub fn $name() { let () = $body; }
        )*
        #[cfg(not(kani))]
        pub const RUNS: &[$crate::nd::Ob] = &[ $( $crate::nd::Ob {
            prop: $prop, name: stringify!($name), kind: "run", note: $note, f: $name,
        } ),* ];
    };
}
