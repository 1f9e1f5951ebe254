//! Harnesses over the real stylish crates.
//!
//! Every harness runs three ways: as an entry point of the symbolic executor (feature `symx`, via
//! LLVM IR), as a Kani proof (`cfg(kani)`), and natively, replaying one concrete assignment
//! (`src/main.rs`). `[n]` is the loop bound for Kani; symx follows every path to its end.
#![allow(dead_code, unused_imports, unused_macros)]

pub mod model;
pub mod nd;

/// `harnesses! { [unwind] fn name() { .. } .. }`: a proof per function plus the replay table.
macro_rules! harnesses {
    ($([$unwind:literal] fn $name:ident() $body:block)*) => {
        $(
            #[cfg(not(feature = "symx"))]
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() { $body; crate::nd::reached(); }
            #[cfg(feature = "symx")]
            #[no_mangle]
            pub extern "C" fn $name() { $body; crate::nd::reached(); }
        )*
        #[cfg(not(feature = "symx"))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

macro_rules! modules {
    ($($feature:literal $module:ident)*) => {
        $(#[cfg(feature = $feature)] pub mod $module;)*
        #[cfg(not(feature = "symx"))]
        pub fn find(name: &str) -> Option<fn()> {
            $(
                #[cfg(feature = $feature)]
                for (n, f) in $module::TABLE { if *n == name { return Some(*f); } }
            )*
            let _ = name;
            None
        }
    };
}

modules! {
    "c01" c01
    "c02" c02
    "c03" c03
    "c04" c04
    "c05" c05
    "c06" c06
    "c07" c07
    "c08" c08
    "c10" c10
    "c09" c09
    "c11" c11
    "c11x" c11x
    "c12" c12
    "c13" c13
    "c15" c15
    "c16" c16
    "c17" c17
    "c18" c18
    "c19" c19
    "c20" c20
    "c23" c23
}
