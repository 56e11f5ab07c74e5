//! Machine-checked contracts for mbrobbel/narrow. See /verif/DESIGN.md.
#![allow(clippy::all, dead_code, unused_imports, unused_macros)]

extern crate alloc;

#[macro_use]
pub mod nd;
pub mod spec;
pub mod store;
pub mod ffi;
#[cfg(not(kani))]
pub mod gen_;
#[cfg(not(kani))]
pub mod fail;
#[cfg(not(kani))]
pub mod cabi;

macro_rules! modules { ($($feature:literal $m:ident),* $(,)?) => {
    $( #[cfg(feature = $feature)] pub mod $m; )*
    /// Every obligation of the enabled modules.
    #[cfg(not(kani))]
    pub fn registry() -> Vec<&'static nd::Ob> {
        let mut v: Vec<&'static nd::Ob> = Vec::new();
        $( #[cfg(feature = $feature)] { v.extend($m::OBS.iter()); v.extend($m::RUNS.iter()); } )*
        v
    }
} }

modules! {
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06,
    "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21,
}
