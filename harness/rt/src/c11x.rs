//! The function the macros expand to, with every flag and count symbolic. It is an internal interface:
//! where it is not as expected here, the check goes without this module.
use crate::{model::*, nd};
use core::cell::Cell;
use stylish::Write as _;
use stylish_core::𓀄 as x;

fn any_flags(debug: bool) {
    let align = nd::concrete(nd::below(4));
    let sign = nd::concrete(nd::below(3));
    let (alternate, zero) = (nd::bool(), nd::bool());
    let hex = if debug { nd::concrete(nd::below(3)) } else { 0 };
    let count = || {
        if nd::bool() {
            Some(u16::from_le_bytes([nd::u8(), nd::u8()]) as usize)
        } else {
            None
        }
    };
    let (width, precision) = (count(), count());
    let args = x::FormatterArgs {
        align: match align { 0 => None, 1 => Some(x::Align::Left), 2 => Some(x::Align::Center), _ => Some(x::Align::Right) },
        sign: match sign { 0 => None, 1 => Some(x::Sign::Plus), _ => Some(x::Sign::Minus) },
        alternate,
        zero,
        width: width.as_ref(),
        precision: precision.as_ref(),
        debug_hex: match hex { 0 => None, 1 => Some(x::DebugHex::Lower), _ => Some(x::DebugHex::Upper) },
    };
    let calls = Cell::new(0u8);
    let inner = |f: &mut core::fmt::Formatter<'_>| -> core::fmt::Result {
        calls.set(calls.get() + 1);
        assert!(f.fill() == ' ', "fill");
        let a = match f.align() {
            None => 0,
            Some(core::fmt::Alignment::Left) => 1,
            Some(core::fmt::Alignment::Center) => 2,
            Some(core::fmt::Alignment::Right) => 3,
        };
        assert!(a == align, "alignment");
        assert!(f.sign_plus() == (sign == 1), "plus");
        assert!(f.sign_minus() == (sign == 2), "minus");
        assert!(f.alternate() == alternate, "alternate");
        assert!(f.sign_aware_zero_pad() == zero, "zero");
        assert!(f.width() == width, "width");
        assert!(f.precision() == precision, "precision");
        f.write_str("x")
    };
    struct Value<'a>(&'a x::FormatterArgs<'a>, &'a dyn Fn(&mut core::fmt::Formatter<'_>) -> core::fmt::Result, bool, St);
    impl stylish::Display for Value<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            let mut diff = x::StyleDiff::default();
            diff.foreground = Some(color(self.3.f));
            let mut f = x::Formatter::with_args(f, self.0, diff);
            let v = x::StdFmt { f: self.1 };
            if self.2 { x::Display::fmt(&x::StdFmtDebug(v), &mut f) } else { x::Display::fmt(&x::StdFmtOther(v), &mut f) }
        }
    }
    let s = St { f: nd::below(17), b: 16, i: 0 };
    let mut e = Expect::<1>::new();
    e.push(b'x', s);
    let mut w = Rec::new(e);
    assert!(stylish::write!(w, "{:s}", Value(&args, &inner, debug, s)).is_ok(), "formatting succeeds");
    assert!(w.complete() && calls.get() == 1, "the value is formatted once, in the placeholder's style");
}

harnesses! {
    [8] fn q_any_flags() { any_flags(false) }
    [8] fn q_any_debug_flags() { any_flags(true) }
}
