use crate::{model::*, nd};
use stylish::{Display, Formatter, ToAnsiString, ToHtmlString, ToPlainString, ToStylishString, Write as _};

/// Styled segments, each displayed in the way told.
struct Segs<const K: usize>(Hist<K>, [u8; K]);
impl<const K: usize> Segs<K> {
    fn any(kinds: u8, pick: fn() -> St) -> Self { Segs(Hist::of(kinds, pick), [0; K]) }
    fn text(&self, k: usize) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.0.text[k][..self.0.len[k]]) }
    }
    fn put(&self, w: &mut impl stylish::Write) { self.0.put(w) }
}
impl<const K: usize> Display for Segs<K> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let mut k = 0;
        while k < K {
            let (s, t) = (self.0.style[k].style(), self.text(k));
            match self.1[k] {
                1 => stylish::write!(f.with(s), "{}", t)?,
                2 => stylish::Write::write_str(f, t, s)?,
                3 => f.with(s).write_fmt(stylish::format_args!("{:s}", Styled(t, self.0.style[k], true)))?,
                _ => f.with(s).write_str(t)?,
            }
            k += 1;
        }
        Ok(())
    }
}
fn ways<const K: usize>() -> [u8; K] {
    let mut o = [0; K];
    let mut k = 0;
    while k < K { o[k] = nd::concrete(nd::below(4)); k += 1; }
    o
}
fn fewest() -> St { St { f: if nd::bool() { 16 } else { 12 }, ..DEF } }
fn same(a: &[u8], b: &[u8], what: &str) {
    assert!(a.len() == b.len(), "{}", what);
    let mut right = true;
    let mut i = 0;
    while i < a.len() {
        right &= a[i] == b[i];
        i += 1;
    }
    assert!(right, "{}", what);
}
macro_rules! adaptor {
    ($name:ident, $new:path, $end:expr, $fmt:path, $module:ident, $to:ident) => {
        fn $name<const K: usize>(v: Segs<K>) {
            let mut w = $new(String::new());
            v.put(&mut w);
            let want = $end(w);
            same($fmt(stylish::format_args!("{:s}", v)).as_bytes(), want.as_bytes(), "format function");
            same(stylish::$module::format!("{:s}", v).as_bytes(), want.as_bytes(), "format macro");
            same(v.$to().as_bytes(), want.as_bytes(), "to-string conversion");
            let mut w = $new(String::new());
            assert!(stylish::write!(w, "{:s}", v).is_ok(), "write macro succeeds");
            same($end(w).as_bytes(), want.as_bytes(), "write macro");
            let mut w = $new(String::new());
            v.put(&mut w);
            assert!(w.write_str("\n", stylish::Style::default()).is_ok(), "direct write succeeds");
            let want = $end(w);
            let mut w = $new(String::new());
            assert!(stylish::writeln!(w, "{:s}", v).is_ok(), "writeln macro succeeds");
            same($end(w).as_bytes(), want.as_bytes(), "writeln macro adds one unstyled line feed");
            let mut w = $new(String::new());
            assert!(stylish::write!(&mut w, "{:s}", v).is_ok(), "write macro succeeds");
            assert!(stylish::writeln!(w).is_ok(), "writeln macro succeeds");
            same($end(w).as_bytes(), want.as_bytes(), "bare writeln macro adds one unstyled line feed");
            let mut w = $new(String::new());
            assert!(w.write_fmt(stylish::format_args!("{:s}", v)).is_ok(), "inherent write_fmt succeeds");
            assert!(stylish::writeln!(w,).is_ok(), "writeln macro succeeds");
            same($end(w).as_bytes(), want.as_bytes(), "inherent write_fmt");
        }
    };
}
fn plain_end(w: stylish::Plain<String>) -> String { w.into_inner() }
fn ansi_end(w: stylish::Ansi<String>) -> String { w.finish().unwrap() }
fn html_end(w: stylish::Html<String>) -> String { w.finish().unwrap() }
fn fewer() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(2) } }

adaptor!(ansi, stylish::ansi, ansi_end, stylish::ansi::format, ansi, to_ansi_string);
adaptor!(html, stylish::html, html_end, stylish::html::format, html, to_html_string);
adaptor!(plain, stylish::plain, plain_end, stylish::plain::format, plain, to_plain_string);

/// The byte-stream adaptors agree with the text ones.
fn streams<const K: usize>(v: Segs<K>) {
    let mut w = stylish::ansi(String::new());
    v.put(&mut w);
    let want = ansi_end(w);
    let mut w = stylish::io::ansi(Vec::new());
    assert!(stylish::write!(w, "{:s}", v).is_ok(), "write succeeds");
    same(&w.finish().unwrap(), want.as_bytes(), "write macro on the byte-stream adaptor");
    let mut w = stylish::ansi(String::new());
    v.put(&mut w);
    assert!(w.write_str("\n", stylish::Style::default()).is_ok(), "direct write succeeds");
    let want = ansi_end(w);
    let mut w = stylish::io::ansi(Vec::new());
    assert!(stylish::writeln!(w, "{:s}", v).is_ok(), "write succeeds");
    same(&w.finish().unwrap(), want.as_bytes(), "writeln macro on the byte-stream adaptor");
    let mut w = stylish::io::ansi(Vec::new());
    assert!(stylish::write!(w, "{:s}", v).is_ok() && stylish::writeln!(w).is_ok(), "write succeeds");
    same(&w.finish().unwrap(), want.as_bytes(), "bare writeln macro on the byte-stream adaptor");
    let mut w = stylish::plain(String::new());
    v.put(&mut w);
    let want = plain_end(w);
    let mut w = stylish::io::plain(Vec::new());
    assert!(stylish::io::Write::write_fmt(&mut w, stylish::format_args!("{:s}", v)).is_ok(), "write succeeds");
    same(&w.into_inner(), want.as_bytes(), "plain byte-stream adaptor");
    let mut w = stylish::io::plain(Vec::new());
    assert!(stylish::writeln!(w, "{:s}", v).is_ok(), "write succeeds");
    let got = w.into_inner();
    assert!(got.len() == want.len() + 1 && got[want.len()] == b'\n', "one line feed");
    same(&got[..want.len()], want.as_bytes(), "writeln macro on the plain byte-stream adaptor");
}

/// The attributed string made from a value shows as the value does.
fn string<const K: usize, const N: usize>(v: Segs<K>) {
    let mut e = v.0.expect::<N>();
    let shows = |s: stylish::String, e: Expect<N>, what: &str| {
        let mut w = Rec::new(e);
        assert!(stylish::write!(w, "{:s}", s).is_ok() && w.complete(), "{}", what);
    };
    shows(stylish::format(stylish::format_args!("{:s}", v)), e, "format function");
    shows(stylish::format!("{:s}", v), e, "format macro");
    shows(v.to_stylish_string(), e, "to-string conversion");
    let mut s = stylish::String::new();
    v.put(&mut s);
    shows(s, e, "direct writes");
    e.push(b'\n', DEF);
    let mut s = stylish::String::new();
    assert!(stylish::writeln!(s, "{:s}", v).is_ok(), "writeln macro succeeds");
    shows(s, e, "writeln macro");
    let mut w = Rec::new(e);
    assert!(stylish::writeln!(w, "{:s}", v).is_ok() && w.complete(), "writeln macro on a sink");
}
/// Mixtures of literal text, std values, attributes and trailing newlines.
fn mixture() {
    let b = nd::u8();
    nd::assume(b < 128);
    let c = b as char;
    let mut e = Expect::<5>::new();
    e.push(b'[', DEF);
    e.push(b, St { f: 4, b: 16, i: 1 });
    e.push(b']', DEF);
    let mut w = Rec::new(e);
    assert!(stylish::write!(w, "[{:(fg=blue,bold)}]", c).is_ok() && w.complete(), "write");
    e.push(b'\n', DEF);
    let mut w = Rec::new(e);
    assert!(stylish::writeln!(w, "[{:(fg=blue,bold)}]", c).is_ok() && w.complete(), "writeln");
    let mut w = Rec::new(e);
    assert!(stylish::writeln!(w, "[{x:(fg=blue,bold)}]", x = c).is_ok() && w.complete(), "writeln with a named argument");
    let mut w = Rec::new(e);
    assert!(stylish::writeln!(w, "[{c:(fg=blue,bold)}]").is_ok() && w.complete(), "writeln with a captured variable");
    e.push(b'\n', DEF);
    let mut w = Rec::new(e);
    assert!(stylish::writeln!(w, "[{:(fg=blue,bold)}]\n", c,).is_ok() && w.complete(), "writeln after a newline");
    let mut w = Rec::new(Expect::<1> { byte: [b'\n'], style: [DEF], len: 1 });
    assert!(stylish::writeln!(w).is_ok() && w.complete(), "bare writeln");
    let mut w = Rec::new(Expect::<1> { byte: [b'\n'], style: [DEF], len: 1 });
    assert!(stylish::writeln!(w, "").is_ok() && w.complete(), "empty writeln");
}

/// A value of two long texts, an arbitrary byte somewhere in the first.
struct Two([u8; 4200], usize, St, St);
impl Two {
    fn any() -> Two {
        let n = [64, 65, 128, 129, 255, 256, 257, 300, 4200][nd::concrete(nd::below(9)) as usize];
        let mut t = [b'x'; 4200];
        t[[0, n / 2, n - 1][nd::concrete(nd::below(3)) as usize]] = nd::plain_byte();
        Two(t, n, few_styles(), fewest())
    }
    fn text(&self) -> &str { unsafe { core::str::from_utf8_unchecked(&self.0[..self.1]) } }
    fn put(&self, w: &mut impl stylish::Write) {
        assert!(w.write_str(self.text(), self.2.style()).is_ok() && w.write_str(self.text(), self.3.style()).is_ok(), "direct write succeeds");
    }
}
impl Display for Two {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.with(self.2.style()).write_str(self.text())?;
        stylish::write!(f.with(self.3.style()), "{}", self.text())
    }
}
macro_rules! long {
    ($v:ident, $new:path, $end:expr, $fmt:path, $module:ident, $to:ident) => {{
        let v = &$v;
        let mut w = $new(String::new());
        v.put(&mut w);
        let want = $end(w);
        same($fmt(stylish::format_args!("{:s}", v)).as_bytes(), want.as_bytes(), "format function");
        same(stylish::$module::format!("{:s}", v).as_bytes(), want.as_bytes(), "format macro");
        same(v.$to().as_bytes(), want.as_bytes(), "to-string conversion");
        let mut w = $new(String::new());
        v.put(&mut w);
        assert!(w.write_str("\n", stylish::Style::default()).is_ok(), "direct write succeeds");
        let want = $end(w);
        let mut w = $new(String::new());
        assert!(stylish::writeln!(w, "{:s}", v).is_ok(), "writeln macro succeeds");
        same($end(w).as_bytes(), want.as_bytes(), "writeln macro adds one unstyled line feed");
    }};
}
fn long() {
    let v = Two::any();
    long!(v, stylish::ansi, ansi_end, stylish::ansi::format, ansi, to_ansi_string);
    long!(v, stylish::html, html_end, stylish::html::format, html, to_html_string);
    long!(v, stylish::plain, plain_end, stylish::plain::format, plain, to_plain_string);
}

harnesses! {
    [8] fn q_ansi() { ansi(Segs::<2>::any(6, St::few)) }
    [8] fn q_html() { html(Segs::<2>::any(4, fewer)) }
    [8] fn q_plain() { plain(Segs::<2>::any(6, St::few)) }
    [8] fn q_ansi_ways() { ansi(Segs::<2>(Hist::of(3, fewest), ways())) }
    [8] fn q_html_ways() { html(Segs::<2>(Hist::of(3, fewest), ways())) }
    [8] fn q_plain_ways() { plain(Segs::<2>(Hist::of(3, fewest), ways())) }
    [8] fn q_string_ways() { string::<2, 9>(Segs(Hist::of(3, fewest), ways())) }
    [8] fn q_streams_ways() { streams(Segs::<2>(Hist::of(3, fewest), ways())) }
    [8] fn q_ansi_colors() { if nd::concrete(nd::below(2)) == 1 { ansi(Segs::<2>::any(2, foregrounds)) } else { ansi(Segs::<2>::any(2, backgrounds)) } }
    [8] fn q_html_colors() { if nd::concrete(nd::below(2)) == 1 { html(Segs::<2>(Hist::letters(foregrounds), [0; 2])) } else { html(Segs::<2>(Hist::letters(backgrounds), [0; 2])) } }
    [8] fn q_long() { long() }
    [8] fn q_streams() { streams(Segs::<2>::any(6, St::few)) }
    [8] fn q_string() { string::<3, 13>(Segs::any(4, fewer)) }
    [8] fn q_mixture() { mixture() }
    [8] fn t_ansi() { ansi(Segs::<3>::any(3, fewer)) }
    [8] fn t_html() { html(Segs::<3>::any(2, fewer)) }
}
