//! Attribute lists through the real macros, under every enclosing style.
use crate::{model::*, nd};
use stylish::{Display, Formatter, Write as _};

#[path = "c12_programs.rs"]
mod programs;
use programs::*;

/// A value that writes one character under every trait there is.
struct Ch(u8);
impl Ch {
    fn text(&self) -> &str { unsafe { core::str::from_utf8_unchecked(core::slice::from_ref(&self.0)) } }
}
impl core::fmt::Display for Ch {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.text()) }
}
impl core::fmt::Debug for Ch {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.text()) }
}
impl Display for Ch {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { f.write_str(self.text()) }
}

/// Foreground, background, intensity where named.
type Diff = [Option<u8>; 3];
fn under(s: St, d: Diff) -> St {
    St { f: d[0].unwrap_or(s.f), b: d[1].unwrap_or(s.b), i: d[2].unwrap_or(s.i) }
}
type Run = fn(&mut Formatter<'_>, &[Ch; 3]) -> stylish::Result;
pub struct Row(Run, Diff);
pub struct Several(Run, [Diff; 3]);
pub struct Nested(Run, Diff, Diff, Diff);
macro_rules! row {
    ($format:literal, (v), $diff:expr) => { Row(|f: &mut Formatter<'_>, v: &[Ch; 3]| stylish::write!(f, $format, v[0]), $diff) };
    ($format:literal, (v = v), $diff:expr) => { Row(|f: &mut Formatter<'_>, v: &[Ch; 3]| stylish::write!(f, $format, v = v[0]), $diff) };
}
macro_rules! several {
    ($format:literal, $diffs:expr) => { Several(|f: &mut Formatter<'_>, v: &[Ch; 3]| stylish::write!(f, $format, v[0], v[1], v[2]), $diffs) };
}
macro_rules! nested {
    ($outer:literal, $inner:literal, $d:expr, $e:expr, $g:expr) => {
        Nested(
            |f: &mut Formatter<'_>, v: &[Ch; 3]| {
                struct Inner<'a>(&'a Ch);
                impl Display for Inner<'_> {
                    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { stylish::write!(f, $inner, self.0) }
                }
                stylish::write!(f, $outer, Inner(&v[0]), v[1])
            },
            $d,
            $e,
            $g,
        )
    };
}
use {nested, row, several};

/// Shows what a row writes in an enclosing style, between text of its own.
struct Around<'a>(Run, &'a [Ch; 3], St);
impl Display for Around<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let mut g = f.with(self.2.style());
        g.write_str("(")?;
        (self.0)(&mut g, self.1)?;
        g.write_str(")")?;
        f.write_str(".")
    }
}
fn chars() -> [Ch; 3] {
    core::array::from_fn(|_| {
        let c = nd::u8();
        nd::assume(c < 128);
        Ch(c)
    })
}
fn check(run: Run, v: &[Ch; 3], s: St, parts: &[(u8, St)]) {
    let mut e = Expect::<12>::new();
    e.push(b'(', s);
    for (c, s) in parts { e.push(*c, *s); }
    e.push(b')', s);
    e.push(b'.', DEF);
    let mut w = Rec::new(e);
    assert!(stylish::write!(w, "{:s}", Around(run, v, s)).is_ok(), "formatting succeeds");
    assert!(w.complete(), "every part is shown in its style");
}
fn rows() {
    let row = &ROWS[usize::from(nd::concrete(nd::below((ROWS.len() / 2) as u8))) * 2 + usize::from(nd::concrete(nd::below(2)))];
    let (v, s) = (chars(), St::any());
    check(row.0, &v, s, &[(b'a', s), (v[0].0, under(s, row.1)), (b'b', s), (b'{', s)]);
}
fn in_a_row() {
    let row = &SEVERAL[usize::from(nd::concrete(nd::below(SEVERAL.len() as u8)))];
    let (v, s) = (chars(), St::any());
    check(row.0, &v, s, &[(v[0].0, under(s, row.1[0])), (b'-', s), (v[1].0, under(s, row.1[1])), (b'-', s), (v[2].0, under(s, row.1[2]))]);
}
fn within() {
    let row = &NESTED[usize::from(nd::concrete(nd::below(NESTED.len() as u8)))];
    let (v, s) = (chars(), St::any());
    let o = under(s, row.1);
    check(row.0, &v, s, &[(b'<', o), (v[0].0, under(o, row.2)), (b'>', o), (v[1].0, under(s, row.3))]);
}

harnesses! {
    [8] fn q_lists() { rows() }
    [8] fn q_in_a_row() { in_a_row() }
    [8] fn q_within() { within() }
}
