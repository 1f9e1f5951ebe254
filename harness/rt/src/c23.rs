use crate::{model::*, nd};
use stylish::{io::Write as _, Write as _};

fn same(a: &[u8], b: &[u8], what: &str) {
    assert!(a.len() == b.len(), "{}", what);
    let mut right = true;
    let mut i = 0;
    while i < a.len() {
        right &= a[i] == b[i];
        i += 1;
    }
    assert!(right, "{}", what);
}
/// One styled write of symbolic content.
#[derive(Clone, Copy)]
struct Piece { text: [u8; 4], len: usize, style: St }
impl Piece {
    fn any(kinds: u8, pick: fn() -> St) -> Piece {
        let h = Hist::<1>::of(kinds, pick);
        Piece { text: h.text[0], len: h.len[0], style: h.style[0] }
    }
}
trait Adaptor: Clone {
    fn put(&mut self, p: &Piece);
    fn end(self) -> Vec<u8>;
}
macro_rules! text {
    ($t:ty, $w:ident => $end:expr) => {
        impl Adaptor for $t {
            fn put(&mut self, p: &Piece) {
                let s = unsafe { core::str::from_utf8_unchecked(&p.text[..p.len]) };
                assert!(self.write_str(s, p.style.style()).is_ok(), "write succeeds");
            }
            fn end(self) -> Vec<u8> {
                let $w = self;
                $end.into_bytes()
            }
        }
    };
}
macro_rules! bytes {
    ($t:ty, $w:ident => $end:expr) => {
        impl Adaptor for $t {
            fn put(&mut self, p: &Piece) { assert!(self.write_all(&p.text[..p.len], p.style.style()).is_ok(), "write succeeds"); }
            fn end(self) -> Vec<u8> {
                let $w = self;
                $end
            }
        }
    };
}
text!(stylish::Ansi<String>, w => w.finish().unwrap());
text!(stylish::Html<String>, w => w.finish().unwrap());
text!(stylish::Plain<String>, w => w.into_inner());
bytes!(stylish::io::Ansi<Vec<u8>>, w => w.finish().unwrap());
bytes!(stylish::io::Plain<Vec<u8>>, w => w.into_inner());

fn alone<A: Adaptor>(new: fn() -> A, pieces: &[&Piece]) -> Vec<u8> {
    let mut w = new();
    for p in pieces { w.put(p); }
    w.end()
}
/// A copy made after `before`, into a fresh adaptor or one that has been used; then both go on.
fn copied<A: Adaptor>(new: fn() -> A, kinds: u8, pick: fn() -> St) {
    let (before, one, other) = (Piece::any(kinds, pick), Piece::any(kinds, pick), Piece::any(2, pick));
    let mut w = new();
    w.put(&before);
    let mut copy = match nd::concrete(nd::below(3)) {
        0 => w.clone(),
        1 => {
            let mut c = new();
            c.clone_from(&w);
            c
        }
        _ => {
            let mut c = new();
            c.put(&other);
            c.clone_from(&w);
            c
        }
    };
    // in either order
    if nd::concrete(nd::below(2)) == 1 {
        w.put(&one);
        copy.put(&other);
    } else {
        copy.put(&other);
        w.put(&one);
    }
    same(&w.end(), &alone(new, &[&before, &one]), "the original goes on as if it had not been copied");
    same(&copy.end(), &alone(new, &[&before, &other]), "the copy goes on as if it had received everything itself");
}
/// A copy of a copy, finished at once, and the original last.
fn twice<A: Adaptor>(new: fn() -> A) {
    let pick = few_styles;
    let (a, b) = (Piece::any(2, pick), Piece::any(2, pick));
    let mut w = new();
    w.put(&a);
    let mut first = w.clone();
    first.put(&b);
    let second = first.clone();
    same(&second.end(), &alone(new, &[&a, &b]), "a copy of a copy");
    first.put(&a);
    same(&first.end(), &alone(new, &[&a, &b, &a]), "a copy goes on after it was copied and that finished");
    same(&w.end(), &alone(new, &[&a]), "the original does not change");
}
/// However an adaptor is made, it begins in the same state.
fn made<A: Adaptor>(ways: [fn() -> A; 3], pick: fn() -> St) {
    let (a, b) = (Piece::any(6, pick), Piece::any(2, few_styles));
    let want = alone(ways[0], &[&a, &b]);
    same(&alone(ways[1], &[&a, &b]), &want, "made by the type's constructor");
    same(&alone(ways[2], &[&a, &b]), &want, "made by default");
    same(&alone(ways[0], &[]), b"", "nothing written, nothing shown");
    same(&alone(ways[2], &[]), b"", "nothing written, nothing shown");
}
macro_rules! all {
    ($($w:path, $new:path, $t:ty, $sink:expr, $kinds:literal $copied:ident $twice:ident $made:ident;)*) => {
        harnesses! {
            $(
                [8] fn $copied() { copied::<$t>(|| $w($sink), $kinds, few_styles) }
                [8] fn $twice() { twice::<$t>(|| $w($sink)) }
                [8] fn $made() { made::<$t>([|| $w($sink), || $new($sink), <$t>::default], St::few) }
            )*
            [8] fn t_copied_ansi() { copied::<stylish::Ansi<String>>(|| stylish::ansi(String::new()), 6, St::few) }
            [8] fn t_copied_html() { copied::<stylish::Html<String>>(|| stylish::html(String::new()), 3, few_styles) }
            [8] fn t_copied_io_ansi() { copied::<stylish::io::Ansi<Vec<u8>>>(|| stylish::io::ansi(Vec::new()), 6, St::few) }
        }
    };
}
all! {
    stylish::ansi, stylish::Ansi::new, stylish::Ansi<String>, String::new(), 3 q_copied_ansi q_twice_ansi q_made_ansi;
    stylish::html, stylish::Html::new, stylish::Html<String>, String::new(), 2 q_copied_html q_twice_html q_made_html;
    stylish::plain, stylish::Plain::new, stylish::Plain<String>, String::new(), 3 q_copied_plain q_twice_plain q_made_plain;
    stylish::io::ansi, stylish::io::Ansi::new, stylish::io::Ansi<Vec<u8>>, Vec::new(), 3 q_copied_io_ansi q_twice_io_ansi q_made_io_ansi;
    stylish::io::plain, stylish::io::Plain::new, stylish::io::Plain<Vec<u8>>, Vec::new(), 3 q_copied_io_plain q_twice_io_plain q_made_io_plain;
}
