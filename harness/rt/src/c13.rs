//! Arguments and literal text through the real macros.
#![allow(unused_unsafe, unused_parens, clippy::all)]
use crate::{model::*, nd};
use core::cell::Cell;
use stylish::{Display, Formatter, Write as _};

#[path = "c13_programs.rs"]
mod programs;
use programs::*;

/// A value that writes one character under every trait there is.
#[derive(Clone, Copy)]
pub struct Ch(u8);
impl Ch {
    fn text(&self) -> &str { unsafe { core::str::from_utf8_unchecked(core::slice::from_ref(&self.0)) } }
    fn me(self) -> Ch { self }
}
impl core::fmt::Display for Ch {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.text()) }
}
impl core::fmt::Debug for Ch {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.text()) }
}
impl Display for Ch {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { f.write_str(self.text()) }
}
impl From<u8> for Ch {
    fn from(c: u8) -> Ch { Ch(c) }
}
macro_rules! operators {
    ($($trait:ident $name:ident)*) => {
        $(impl core::ops::$trait for Ch {
            type Output = Ch;
            fn $name(self, o: Ch) -> Ch { if self.0 == 0 { o } else { self } }
        })*
    };
}
operators! { BitOr bitor Add add BitAnd bitand }
impl core::ops::Not for Ch {
    type Output = Ch;
    fn not(self) -> Ch { self }
}
impl core::ops::Neg for Ch {
    type Output = Ch;
    fn neg(self) -> Ch { self }
}
impl core::ops::Shl<u8> for Ch {
    type Output = Ch;
    fn shl(self, _: u8) -> Ch { self }
}
fn id(c: Ch) -> Ch { c }
fn yes() -> bool { true }

/// The arguments: 0..12 positional, 12..22 with the ten names of the rows, 22 named type, 23..33
/// variables of the ten names to be captured.
pub struct Given { ch: [Ch; 33], evaluated: [Cell<u8>; 23] }
impl Given {
    fn take(&self, k: usize) -> Ch {
        self.evaluated[k].set(self.evaluated[k].get() + 1);
        self.ch[k]
    }
}
/// A byte of literal text, an argument, or an argument in bold.
#[derive(Clone, Copy)]
pub enum Part { Lit(u8), Arg(usize), Bold(usize) }
use Part::{Arg, Bold, Lit};

pub struct Row(fn(&mut Rec<64>, &Given) -> stylish::Result, &'static [usize], &'static [Part]);
macro_rules! row {
    // the names come from the row, so that its format string can capture them
    (($a:ident $b:ident $c:ident $d:ident $e:ident $f:ident $g:ident $h:ident $i:ident $j:ident $t:ident) [$($used:literal)*], [$($part:expr),*], $($args:tt)*) => {
        Row(
            |w: &mut Rec<64>, given: &Given| {
                #[allow(unused_variables, non_snake_case)]
                let [$a, $b, $c, $d, $e, $f, $g, $h, $i, $j]: [Ch; 10] = core::array::from_fn(|k| given.ch[23 + k]);
                let $t = |k: usize| given.take(k);
                stylish::write!(w, $($args)*)
            },
            &[$($used),*],
            &[$($part),*],
        )
    };
}
use row;

fn rows(row: &Row) {
    // spaces would do as well, but then the operators above could not tell "nothing" apart
    let given = Given {
        ch: core::array::from_fn(|_| {
            let c = nd::u8();
            nd::assume(c > 0 && c < 128);
            Ch(c)
        }),
        evaluated: Default::default(),
    };
    let mut e = Expect::<64>::new();
    for part in row.2 {
        match *part {
            Lit(c) => e.push(c, DEF),
            Arg(k) => e.push(given.ch[k].0, DEF),
            Bold(k) => e.push(given.ch[k].0, St { f: 16, b: 16, i: 1 }),
        }
    }
    let mut w = Rec::new(e);
    assert!((row.0)(&mut w, &given).is_ok(), "formatting succeeds");
    assert!(w.complete(), "every placeholder shows its argument and literal text is as written");
    let mut used = 0u32;
    for k in row.1 { used |= 1 << k; }
    let mut k = 0;
    while k < 23 {
        assert!(given.evaluated[k].get() == (used >> k & 1) as u8, "every argument is evaluated once");
        k += 1;
    }
}

/// Showing the same arguments again does not evaluate them again.
fn again() {
    let given = Given {
        ch: core::array::from_fn(|_| {
            let c = nd::u8();
            nd::assume(c > 0 && c < 128);
            Ch(c)
        }),
        evaluated: Default::default(),
    };
    let r#type = given.ch[1];
    let t = |k: usize| given.take(k);
    let mut e = Expect::<16>::new();
    for _ in 0..3 {
        for k in [0, 12, 0, 1] { e.push(given.ch[k].0, DEF); }
        e.push(b'{', DEF);
    }
    let mut w = Rec::new(e);
    fn thrice(w: &mut Rec<16>, a: stylish::Arguments<'_>) -> stylish::Result {
        stylish::write!(w, "{0:s}{0:s}{a:s}", a, a = a)
    }
    assert!(thrice(&mut w, stylish::format_args!("{0}{a}{}{type}{{", t(0), a = t(12))).is_ok(), "formatting succeeds");
    assert!(w.complete(), "the same again");
    assert!(given.evaluated[0].get() == 1 && given.evaluated[12].get() == 1, "every argument is evaluated once");
}

harnesses! {
    [8] fn q_again() { again() }
    [8] fn q_pairs() { rows(&PAIRS[usize::from(nd::concrete(nd::below(PAIRS.len() as u8)))]) }
    [8] fn q_sequences() {
        let (hi, lo) = (nd::below(4), nd::u8());
        let k = usize::from(nd::concrete(hi)) * 256 + usize::from(lo);
        nd::assume(k < SEQUENCES.len());
        rows(&SEQUENCES[usize::from(nd::concrete(hi)) * 256 + usize::from(nd::concrete(lo))])
    }
    [8] fn q_rows() { rows(&ROWS[usize::from(nd::concrete(nd::below(ROWS.len() as u8)))]) }
}
