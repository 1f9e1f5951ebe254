use crate::{model::*, nd};
use stylish::{Style, Write};

/// One character, its encoding.
fn character() -> (char, [u8; 4], usize) {
    let c = char::from_u32(nd::u32());
    nd::assume(c.is_some());
    let c = c.unwrap();
    let mut b = [0; 4];
    let n = c.encode_utf8(&mut b).len();
    (c, b, n)
}
fn one(b: &[u8; 4], n: usize, s: St) -> Expect<8> {
    let mut e = Expect::new();
    let mut i = 0;
    while i < n {
        e.push(b[i], s);
        i += 1;
    }
    e
}

/// What was read has been shown completely, as expected.
trait Reader { fn done(&self) -> bool; }
impl Reader for Term<8> { fn done(&self) -> bool { self.right && self.wellformed && self.shown == self.exp.len && self.at_rest() && self.now() == DEF } }
impl Reader for Page<8> { fn done(&self) -> bool { self.text_right && self.style_right && self.wellformed && self.closed() && self.shown == self.exp.len } }
fn done(r: &impl Reader) -> bool { r.done() }

/// Text written through an adaptor into a recorder, in up to two pieces, directly or by reference.
#[cfg(feature = "has-plain")]
fn plain_text() {
    let b = [nd::u8(), nd::u8(), nd::u8()];
    nd::assume(b[0] < 128 && b[1] < 128 && b[2] < 128);
    let cut = nd::concrete(nd::below(4)) as usize;
    let mut e = Expect::<3>::new();
    for x in b { e.push(x, DEF) }
    let t = unsafe { core::str::from_utf8_unchecked(&b) };
    let mut w = stylish::plain(Rec::new(e));
    assert!(w.write_str(&t[..cut], St::any().style()).is_ok(), "write succeeds");
    assert!((&mut w).write_str(&t[cut..], St::any().style()).is_ok(), "write succeeds");
    assert!(w.into_inner().complete(), "the written text and nothing else");
}
fn sink_char() {
    let (c, b, n) = character();
    let s = St::any();
    let mut w = Rec::new(one(&b, n, s));
    assert!(w.write_char(c, s.style()).is_ok() && w.complete(), "the character in its style");
    let mut w = Rec::new(one(&b, n, s));
    let r: &mut dyn Write = &mut w;
    assert!(r.write_char(c, s.style()).is_ok() && w.complete(), "the character in its style");
}
#[cfg(feature = "has-ansi")]
fn ansi_char() {
    let (c, b, n) = character();
    nd::assume(c != '\x1b');
    let s = St::few();
    let mut w = stylish::ansi(Term::new(one(&b, n, s)));
    assert!(w.write_char(c, s.style()).is_ok(), "write succeeds");
    assert!(w.finish().is_ok_and(|t| done(&t)), "the character in its style");
}
#[cfg(feature = "has-html")]
fn html_char() {
    let (c, b, n) = character();
    let s = St::few();
    let mut w = stylish::html(Page::new(one(&b, n, s)));
    assert!(w.write_char(c, s.style()).is_ok(), "write succeeds");
    assert!(w.finish().is_ok_and(|t| done(&t)), "the character in its style");
}
#[cfg(feature = "has-plain")]
fn plain_char() {
    let (c, b, n) = character();
    let mut w = stylish::plain(Rec::new(one(&b, n, DEF)));
    assert!(w.write_char(c, St::any().style()).is_ok(), "write succeeds");
    assert!(w.into_inner().complete(), "the character");
}

#[cfg(feature = "has-macros")]
mod formatted {
    use super::*;
    pub struct V(pub u8, pub St);
    impl stylish::Display for V {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            stylish::write!(f.with(self.1.style()), "{}", self.0 as char)
        }
    }
    pub fn value() -> V {
        let v = V(nd::u8(), St::few());
        nd::assume(v.0 < 128 && v.0 != 0x1b);
        v
    }
    /// Flags, attributes, captured and repeated arguments and a line end, in a recorder.
    pub fn recorder() {
        let v = value();
        let c = v.0 as char;
        let mut e = Expect::<8>::new();
        e.push(b'[', DEF);
        e.push(b' ', St { f: 1, b: 16, i: 1 });
        e.push(v.0, St { f: 1, b: 16, i: 1 });
        e.push(b'{', DEF);
        e.push(v.0, v.1);
        e.push(v.0, DEF);
        e.push(b'\n', DEF);
        let mut w = Rec::new(e);
        assert!(stylish::writeln!(w, "[{0:>2(fg=red,bold)}{{{1:s}{c}", c, v).is_ok() && w.complete(), "every part in its place and style");
        let mut w = Rec::new(e);
        assert!(stylish::write!(w, concat!("[{0:>2(fg=red,", "bold)}{{{1:s}{c}", "\n"), c, v, c = c).is_ok() && w.complete(), "every part in its place and style");
        let mut w = Rec::new(e);
        assert!(w.write_fmt(stylish::format_args!("[{0:>2(fg=red,bold)}{{{1:s}{0}\n", c, v)).is_ok() && w.complete(), "every part in its place and style");
    }
    #[cfg(feature = "has-alloc")]
    pub mod owned {
        use super::*;
        fn expect(v: &V) -> Expect<8> {
            let mut e = Expect::new();
            e.push(b'<', DEF);
            e.push(v.0, v.1);
            e.push(b'7', St { f: 1, b: 16, i: 1 });
            e
        }
        fn shows(got: &str, v: &V, read: fn(&str, Expect<8>) -> bool, what: &str, whole: bool) {
            let mut e = expect(v);
            if !whole {
                e = Expect::new();
                e.push(v.0, v.1);
            }
            assert!(read(got, e), "{}", what);
        }
        fn read_page(t: &str, e: Expect<8>) -> bool {
            let mut p = Page::new(e);
            for b in t.bytes() { p.byte(b) }
            done(&p)
        }
        fn read_term(t: &str, e: Expect<8>) -> bool {
            let mut p = Term::new(e);
            for b in t.bytes() { p.byte(b) }
            done(&p)
        }
        fn read_plain(t: &str, mut e: Expect<8>) -> bool {
            e.style = [DEF; 8];
            let mut p = Rec::new(e);
            core::fmt::Write::write_str(&mut p, t).is_ok() && p.complete()
        }
        macro_rules! through {
            ($name:ident, $module:ident, $trait:ident, $to:ident, $read:ident) => {
                pub fn $name() {
                    use stylish::$trait;
                    let v = value();
                    let a = stylish::$module::format!("<{:s}{:(fg=red,bold)}", v, 7);
                    shows(&a, &v, $read, "format macro", true);
                    let a = stylish::$module::format(stylish::format_args!("<{:s}{:(fg=red,bold)}", v, 7));
                    shows(&a, &v, $read, "format function", true);
                    shows(&v.$to(), &v, $read, "to-string conversion", false);
                }
            };
        }
        #[cfg(feature = "has-ansi")]
        through!(ansi, ansi, ToAnsiString, to_ansi_string, read_term);
        #[cfg(feature = "has-html")]
        through!(html, html, ToHtmlString, to_html_string, read_page);
        #[cfg(feature = "has-plain")]
        through!(plain, plain, ToPlainString, to_plain_string, read_plain);
        pub fn attributed() {
            use stylish::ToStylishString;
            let v = value();
            let s = stylish::format!("<{:s}{:(fg=red,bold)}", v, 7);
            let mut w = Rec::new(expect(&v));
            assert!(stylish::write!(w, "{:s}", s).is_ok() && w.complete(), "format macro");
            let s = stylish::format(stylish::format_args!("<{:s}{:(fg=red,bold)}", v, 7));
            let mut w = Rec::new(expect(&v));
            assert!(stylish::write!(w, "{:s}", s).is_ok() && w.complete(), "format function");
            let mut e = Expect::<8>::new();
            e.push(v.0, v.1);
            let mut w = Rec::new(e);
            assert!(stylish::write!(w, "{:s}", v.to_stylish_string()).is_ok() && w.complete(), "to-string conversion");
        }
    }
    #[cfg(all(feature = "has-std", feature = "has-ansi"))]
    pub fn io_ansi() {
        let v = value();
        let mut w = stylish::io::ansi(Vec::new());
        assert!(stylish::write!(w, "<{:s}{:(fg=red,bold)}", v, 7).is_ok(), "write succeeds");
        let mut e = Expect::<8>::new();
        e.push(b'<', DEF);
        e.push(v.0, v.1);
        e.push(b'7', St { f: 1, b: 16, i: 1 });
        let mut t = Term::new(e);
        for b in w.finish().unwrap() { t.byte(b) }
        assert!(done(&t), "every part in its place and style");
    }
    #[cfg(all(feature = "has-std", feature = "has-plain"))]
    pub fn io_plain() {
        let v = value();
        let mut w = stylish::io::plain(Vec::new());
        assert!(stylish::writeln!(w, "<{:s}{:(fg=red,bold)}", v, 7).is_ok(), "write succeeds");
        let w = w.into_inner();
        assert!(w.len() == 4 && w[0] == b'<' && w[1] == v.0 && w[2] == b'7' && w[3] == b'\n', "the text");
    }
}

harnesses! {
    [8] fn q_sink_char() { sink_char() }
    #[cfg(feature = "has-plain")] [8] fn q_plain_text() { plain_text() }
    #[cfg(feature = "has-plain")] [8] fn q_plain_char() { plain_char() }
    #[cfg(feature = "has-ansi")] [8] fn q_ansi_char() { ansi_char() }
    #[cfg(feature = "has-html")] [8] fn q_html_char() { html_char() }
    #[cfg(feature = "has-macros")] [8] fn q_recorder() { formatted::recorder() }
    #[cfg(all(feature = "has-macros", feature = "has-alloc"))] [8] fn q_attributed() { formatted::owned::attributed() }
    #[cfg(all(feature = "has-macros", feature = "has-alloc", feature = "has-ansi"))] [8] fn q_ansi_string() { formatted::owned::ansi() }
    #[cfg(all(feature = "has-macros", feature = "has-alloc", feature = "has-html"))] [8] fn q_html_string() { formatted::owned::html() }
    #[cfg(all(feature = "has-macros", feature = "has-alloc", feature = "has-plain"))] [8] fn q_plain_string() { formatted::owned::plain() }
    #[cfg(all(feature = "has-macros", feature = "has-std", feature = "has-ansi"))] [8] fn q_io_ansi() { formatted::io_ansi() }
    #[cfg(all(feature = "has-macros", feature = "has-std", feature = "has-plain"))] [8] fn q_io_plain() { formatted::io_plain() }
}
