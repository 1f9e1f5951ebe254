//! Harnesses inside a copy of /repo/macros/src (made afresh by every check): same crate, so that
//! the private parser is in reach. See ../rt/src/lib.rs for the macros.
#![allow(dead_code, unused_imports, unused_macros, unreachable_pub, missing_docs)]

#[path = "@VERIF@/harness/rt/src/nd.rs"]
pub mod nd;

macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $(
            #[cfg(not(feature = "symx"))]
            pub fn $name() { $body; crate::verif::nd::reached(); }
            #[cfg(feature = "symx")]
            #[no_mangle]
            pub extern "C" fn $name() { $body; crate::verif::nd::reached(); }
        )*
        #[cfg(not(feature = "symx"))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
macro_rules! modules {
    ($($feature:literal $path:literal $module:ident)*) => {
        $(#[cfg(feature = $feature)] #[path = $path] pub mod $module;)*
        #[cfg(not(feature = "symx"))]
        pub fn find(name: &str) -> Option<fn()> {
            $(
                #[cfg(feature = $feature)]
                for (n, f) in $module::TABLE { if *n == name { return Some(*f); } }
            )*
            let _ = name;
            None
        }
    };
}
use proc_macro2::{Literal, TokenStream, TokenTree};

fn mentions(tokens: TokenStream, word: &str) -> bool {
    tokens.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == word,
        TokenTree::Group(g) => mentions(g.stream(), word),
        _ => false,
    })
}
/// The macro invoked with a format string and what follows it; panics when it rejects them.
pub fn call(text: &str, tail: &str) {
    let mut input: TokenStream = "crate = stylish,".parse().unwrap();
    input.extend([TokenTree::Literal(Literal::string(text))]);
    input.extend(tail.parse::<TokenStream>().unwrap());
    let out = crate::format_args(input);
    if mentions(out.clone(), "compile_error") {
        panic!("rejected");
    }
    core::mem::forget(out);
}

#[path = "@VERIF@/harness/pm/src/grammar.rs"]
pub mod grammar;

modules! {
    "c14" "@VERIF@/harness/pm/src/c14.rs" c14
    "c14p" "@VERIF@/harness/pm/src/c14p.rs" c14p
    "c21" "@VERIF@/harness/pm/src/c21.rs" c21
}
