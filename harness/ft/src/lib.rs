//! The harnesses of several properties, and a few of their own, over the stylish crates with a subset of
//! their features (C22). The check writes a Cargo.toml per combination; `has-*` features tell which it is.
#![allow(dead_code, unused_imports, unused_macros, unexpected_cfgs)]

#[path = "../../rt/src/model.rs"]
pub mod model;
#[path = "../../rt/src/nd.rs"]
pub mod nd;

macro_rules! harnesses {
    ($($(#[$m:meta])* [$unwind:literal] fn $name:ident() $body:block)*) => {
        $(
            $(#[$m])*
            #[cfg(not(feature = "symx"))]
            pub fn $name() { $body; crate::nd::reached(); }
            $(#[$m])*
            #[cfg(feature = "symx")]
            #[export_name = concat!(module_path!(), "::", stringify!($name))]
            pub extern "C" fn $name() { $body; crate::nd::reached(); }
        )*
        #[cfg(not(feature = "symx"))]
        pub const TABLE: &[(&str, fn())] = &[$($(#[$m])* (stringify!($name), $name as fn())),*];
    };
}

macro_rules! modules {
    ($($cfg:meta, $path:literal $module:ident;)*) => {
        $(#[cfg($cfg)] #[path = $path] pub mod $module;)*
        #[cfg(not(feature = "symx"))]
        pub fn find(name: &str) -> Option<fn()> {
            $(
                #[cfg($cfg)]
                if let Some(rest) = name.strip_prefix(concat!(stringify!($module), "::")) {
                    for (n, f) in $module::TABLE { if *n == rest { return Some(*f); } }
                }
            )*
            let _ = name;
            None
        }
    };
}

modules! {
    all(), "../../rt/src/c01.rs" c01;
    all(), "../../rt/src/c02.rs" c02;
    all(), "c22.rs" c22;
    feature = "has-ansi", "../../rt/src/c03.rs" c03;
    feature = "has-ansi", "../../rt/src/c04.rs" c04;
    feature = "has-html", "../../rt/src/c06.rs" c06;
    feature = "has-html", "../../rt/src/c07.rs" c07;
    feature = "has-macros", "../../rt/src/c10.rs" c10;
    feature = "has-macros", "../../rt/src/c13.rs" c13;
    all(feature = "has-macros", feature = "has-alloc"), "../../rt/src/c09.rs" c09;
    all(feature = "has-std", feature = "has-ansi"), "../../rt/src/c05.rs" c05;
    all(feature = "has-std", feature = "has-plain"), "../../rt/src/c08.rs" c08;
    feature = "has-std", "../../rt/src/c15.rs" c15;
    all(feature = "has-std", feature = "has-macros", feature = "has-plain", feature = "has-ansi"), "../../rt/src/c16.rs" c16;
    all(feature = "has-alloc", feature = "has-macros", feature = "has-plain", feature = "has-ansi", feature = "has-html"), "../../rt/src/c17.rs" c17;
}
