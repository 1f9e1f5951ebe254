//! Nondeterministic values: symbolic under symx and Kani, taken from a recorded assignment natively.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn usize() -> usize { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
    pub fn concrete(v: u8) -> u8 { v }
    pub fn reached() { kani::cover!(true, "harness end reached") }
}

#[cfg(feature = "symx")]
mod imp {
    extern "C" {
        fn symx_u8() -> u8;
        fn symx_assume(c: bool);
        fn symx_reach(k: u64);
        fn symx_expect_panic(on: u8);
        fn symx_concrete(v: u8) -> u8;
    }
    /// The same value, on a path of its own for each value it can have.
    pub fn concrete(v: u8) -> u8 { unsafe { symx_concrete(v) } }
    /// Asserts that `f` panics exactly when `want`.
    pub fn panics(want: bool, f: impl FnOnce()) {
        if want { unsafe { symx_expect_panic(1) } }
        f();
        if want { unsafe { symx_expect_panic(0) } }
        assert!(!want, "rejected");
    }
    pub fn u8() -> u8 { unsafe { symx_u8() } }
    pub fn u32() -> u32 { u32::from_le_bytes([u8(), u8(), u8(), u8()]) }
    pub fn usize() -> usize { usize::from_le_bytes([u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8()]) }
    pub fn assume(c: bool) { unsafe { symx_assume(c) } }
    pub fn reached() { unsafe { symx_reach(1) } }
}

#[cfg(not(any(kani, feature = "symx")))]
mod imp {
    use std::cell::RefCell;
    thread_local!(static VALUES: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0)));

    pub fn load(values: Vec<u8>) {
        VALUES.with(|v| *v.borrow_mut() = (values, 0));
    }
    pub fn u8() -> u8 {
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            let i = v.1;
            v.1 += 1;
            match v.0.get(i) {
                Some(b) => *b,
                None => {
                    eprintln!("replay: value {i} is missing");
                    std::process::exit(3);
                }
            }
        })
    }
    pub fn u32() -> u32 { u32::from_le_bytes([u8(), u8(), u8(), u8()]) }
    pub fn usize() -> usize { usize::from_le_bytes([u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8()]) }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("replay: assumption not met");
            std::process::exit(3);
        }
    }
    pub fn reached() {}
    pub fn concrete(v: u8) -> u8 { v }
    pub fn panics(want: bool, f: impl FnOnce()) {
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| ()));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        std::panic::set_hook(hook);
        if want {
            assert!(r.is_err(), "rejected");
        } else if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
}
pub use imp::*;

/// Arbitrary value in `0..n`.
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}
pub fn bool() -> bool { below(2) == 1 }
/// Arbitrary printable-or-control ASCII byte other than ESC.
pub fn plain_byte() -> u8 {
    let v = u8();
    assume(v < 128 && v != 0x1b);
    v
}
