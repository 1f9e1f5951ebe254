//! Every combination of standard flags and trait selector, through the real macros, against core's own formatting.
use crate::{model::*, nd};
use core::cell::Cell;
use core::fmt;
use stylish::Write as _;

#[path = "c11_programs.rs"]
mod programs;
use programs::*;

/// Core's output, as what the styled sink is to be given.
pub struct Core(Expect<128>, St);
impl fmt::Write for Core {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            self.0.push(b[i], self.1);
            i += 1;
        }
        Ok(())
    }
}
/// One format string: through stylish, through core, and the style of the placeholder.
pub struct Row<T: ?Sized>(fn(&mut Rec<128>, &T) -> stylish::Result, fn(&mut Core, &T) -> fmt::Result, St);
macro_rules! row {
    // of a reference `{:p}` shows the address, so this one formats the value itself
    (Probe, $ours:literal, $core:literal, $style:expr) => {
        Row(
            |w: &mut Rec<128>, v: &Probe| stylish::write!(w, $ours, *v),
            |w: &mut Core, v: &Probe| fmt::Write::write_fmt(w, core::format_args!($core, *v)),
            $style,
        )
    };
    ($trait:ident, $ours:literal, $core:literal, $style:expr) => {
        Row(
            |w: &mut Rec<128>, v: &(dyn core::fmt::$trait + 'static)| stylish::write!(w, $ours, v),
            |w: &mut Core, v: &(dyn core::fmt::$trait + 'static)| fmt::Write::write_fmt(w, core::format_args!($core, v)),
            $style,
        )
    };
}
use row;

type Probes = [Probe; 4];
/// Several placeholders: through stylish at once, through core one by one, each with its style.
pub struct Several(fn(&mut Rec<128>, &Probes) -> stylish::Result, &'static [(fn(&mut Core, &Probe) -> fmt::Result, St)]);
macro_rules! cores {
    ($($core:literal, $style:expr),*) => {
        &[$((|w: &mut Core, v: &Probe| fmt::Write::write_fmt(w, core::format_args!($core, *v)), $style)),*]
    };
}
macro_rules! several {
    ([$($i:literal)*] $ours:literal, $(($core:literal, $style:expr)),*) => {
        Several(|w: &mut Rec<128>, v: &Probes| stylish::write!(w, $ours, $(v[$i]),*), cores!($($core, $style),*))
    };
}
macro_rules! nested {
    ($ours:literal, $inner:literal, $(($core:literal, $style:expr)),*) => {
        Several(
            |w: &mut Rec<128>, v: &Probes| {
                struct Inner<'a>(&'a Probes);
                impl stylish::Display for Inner<'_> {
                    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { stylish::write!(f, $inner, self.0[1], self.0[2]) }
                }
                stylish::write!(w, $ours, v[0], Inner(v), v[3])
            },
            cores!($($core, $style),*),
        )
    };
}
use {cores, nested, several};

/// Everything a value can find out about how it is formatted.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Seen {
    which: u8,
    fill: char,
    align: u8,
    plus: bool,
    minus: bool,
    alternate: bool,
    zero: bool,
    width: Option<usize>,
    precision: Option<usize>,
}
pub struct Probe { seen: Cell<Option<Seen>>, calls: Cell<u8>, c: u8, ok: bool }
impl Probe {
    fn new(c: u8, ok: bool) -> Probe { Probe { seen: Cell::new(None), calls: Cell::new(0), c, ok } }
    fn see(&self, which: u8, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.calls.set(self.calls.get() + 1);
        self.seen.set(Some(Seen {
            which,
            fill: f.fill(),
            align: match f.align() { None => 0, Some(fmt::Alignment::Left) => 1, Some(fmt::Alignment::Center) => 2, Some(fmt::Alignment::Right) => 3 },
            plus: f.sign_plus(),
            minus: f.sign_minus(),
            alternate: f.alternate(),
            zero: f.sign_aware_zero_pad(),
            width: f.width(),
            precision: f.precision(),
        }));
        f.write_str(unsafe { core::str::from_utf8_unchecked(&[self.c]) })?;
        // the hexadecimal debug flags only show in what an integer writes
        if which == 1 { fmt::Debug::fmt(&0xabu8, f)?; }
        if self.ok { Ok(()) } else { Err(fmt::Error) }
    }
}
macro_rules! traits {
    ($($which:literal $trait:ident)*) => {
        $(impl fmt::$trait for Probe { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.see($which, f) } })*
    };
}
traits! { 0 Display 1 Debug 2 Octal 3 LowerHex 4 UpperHex 5 Pointer 6 Binary 7 LowerExp 8 UpperExp }

fn compare<T: ?Sized>(row: &Row<T>, a: &T, b: &T) -> bool {
    let mut core = Core(Expect::new(), row.2);
    let want = (row.1)(&mut core, b).is_ok();
    let mut w = Rec::new(core.0);
    let got = (row.0)(&mut w, a).is_ok();
    assert!(got == want, "formatting reports what core's formatting reports");
    assert!(!got || w.complete(), "the value writes what it writes with core, in the placeholder's style");
    assert!(w.right, "the value writes what it writes with core, in the placeholder's style");
    got
}
macro_rules! probe {
    ($table:ident, Probe) => { probe!(@ $table, Probe) };
    ($table:ident, $trait:ident) => { probe!(@ $table, dyn fmt::$trait) };
    (@ $table:ident, $as:ty) => {{
        let row = &$table[nd::concrete(nd::below($table.len() as u8)) as usize];
        let c = nd::u8();
        nd::assume(c < 128);
        let ok = nd::bool();
        let (a, b) = (Probe::new(c, ok), Probe::new(c, ok));
        compare(row, &a as &$as, &b as &$as);
        assert!(a.calls.get() == 1, "the value is formatted once");
        assert!(a.seen.get() == b.seen.get(), "the flags are the ones core would pass");
    }};
}
macro_rules! integer {
    ($table:ident, $trait:ident) => {{
        let row = &$table[nd::concrete(nd::below($table.len() as u8)) as usize];
        let v = nd::u8() as i8;
        compare(row, &v as &dyn fmt::$trait, &v as &dyn fmt::$trait);
    }};
}
fn run_several(row: &Several) {
    let n = row.1.len();
    let last = nd::bool();
    let a: Probes = core::array::from_fn(|k| {
        let c = nd::u8();
        nd::assume(c < 128);
        Probe::new(c, k + 1 < n || last)
    });
    let b: Probes = core::array::from_fn(|k| Probe::new(a[k].c, a[k].ok));
    let mut c = Core(Expect::new(), DEF);
    let mut want = true;
    let mut k = 0;
    while k < n {
        c.1 = row.1[k].1;
        want &= (row.1[k].0)(&mut c, &b[k]).is_ok();
        k += 1;
    }
    let mut w = Rec::new(c.0);
    let got = (row.0)(&mut w, &a).is_ok();
    assert!(got == want, "formatting reports what core's formatting reports");
    assert!(w.right && (!got || w.complete()), "each value writes what it writes with core, in its own style");
    let mut k = 0;
    while k < n {
        assert!(a[k].calls.get() == 1, "each value is formatted once");
        assert!(a[k].seen.get() == b[k].seen.get(), "the flags are the ones core would pass");
        k += 1;
    }
}
const TEXTS: [&str; 5] = ["", "a", "\u{e9}\u{20ac}z", "\"\n\u{1f600}", "longer than any width"];
macro_rules! text {
    ($table:ident, $trait:ident) => {{
        let row = &$table[nd::concrete(nd::below($table.len() as u8)) as usize];
        let v = &TEXTS[nd::concrete(nd::below(5)) as usize];
        compare(row, v as &dyn fmt::$trait, v as &dyn fmt::$trait);
    }};
}

/// A value that writes in many ways, wide characters among it.
struct Pieces(u8);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let c = unsafe { core::str::from_utf8_unchecked(core::slice::from_ref(&self.0)) };
        fmt::Write::write_char(f, '\u{e9}')?;
        f.write_str("")?;
        f.pad(c)?;
        fmt::Write::write_char(f, self.0 as char)?;
        core::write!(f, "<{}{:>3}{:?}>", c, '\u{20ac}', 7u8)?;
        f.pad_integral(true, "0x", "7")?;
        let text = self.to_inner();
        fmt::Display::fmt(&text, f)?;
        f.write_str("\u{1f600}\n")
    }
}
impl Pieces {
    fn to_inner(&self) -> char { self.0 as char }
}
/// What `derive(Debug)` does.
#[derive(Debug)]
struct Derived { a: i8, b: (&'static str,), c: Option<Unit> }
#[derive(Debug)]
struct Unit;
macro_rules! pieces {
    ($table:ident) => {{
        let row = &$table[nd::concrete(nd::below($table.len() as u8)) as usize];
        let c = nd::u8();
        nd::assume(c < 128);
        compare(row, &Pieces(c) as &dyn fmt::Display, &Pieces(c) as &dyn fmt::Display);
    }};
}
macro_rules! derived {
    ($table:ident) => {{
        let row = &$table[nd::concrete(nd::below($table.len() as u8)) as usize];
        let a = [0i8, 5, -7, 127, -128][nd::concrete(nd::below(5)) as usize];
        let make = || Derived { a, b: ("q\"",), c: if a == 5 { None } else { Some(Unit) } };
        compare(row, &make() as &dyn fmt::Debug, &make() as &dyn fmt::Debug);
    }};
}

harnesses! {
    [8] fn q_pieces() { pieces!(T0) }
    [8] fn q_derived() { derived!(T1) }
    [8] fn q_derived_lower_hex() { derived!(T2) }
    [8] fn q_derived_upper_hex() { derived!(T3) }
    [8] fn q_counts() { probe!(COUNTS, Probe) }
    [8] fn q_display() { probe!(T0, Display) }
    [8] fn q_debug() { probe!(T1, Debug) }
    [8] fn q_debug_lower_hex() { probe!(T2, Debug) }
    [8] fn q_debug_upper_hex() { probe!(T3, Debug) }
    [8] fn q_octal() { probe!(T4, Octal) }
    [8] fn q_lower_hex() { probe!(T5, LowerHex) }
    [8] fn q_upper_hex() { probe!(T6, UpperHex) }
    [8] fn q_pointer() { probe!(T7, Probe) }
    [8] fn q_binary() { probe!(T8, Binary) }
    [8] fn q_lower_exp() { probe!(T9, LowerExp) }
    [8] fn q_upper_exp() { probe!(T10, UpperExp) }
    [8] fn q_three() { run_several(&TRIOS[nd::concrete(nd::below(TRIOS.len() as u8)) as usize]) }
    [8] fn q_nested() { run_several(&NESTED[nd::concrete(nd::below(NESTED.len() as u8)) as usize]) }
    [8] fn q_int_display() { integer!(T0, Display) }
    [8] fn q_int_debug() { integer!(T1, Debug) }
    [8] fn q_int_debug_lower_hex() { integer!(T2, Debug) }
    [8] fn q_int_debug_upper_hex() { integer!(T3, Debug) }
    [8] fn q_int_octal() { integer!(T4, Octal) }
    [8] fn q_int_lower_hex() { integer!(T5, LowerHex) }
    [8] fn q_int_upper_hex() { integer!(T6, UpperHex) }
    [8] fn q_int_binary() { integer!(T8, Binary) }
    [8] fn q_int_lower_exp() { integer!(T9, LowerExp) }
    [8] fn q_int_upper_exp() { integer!(T10, UpperExp) }
    [8] fn q_text_display() { text!(T0, Display) }
    [8] fn q_text_debug() { text!(T1, Debug) }
}
