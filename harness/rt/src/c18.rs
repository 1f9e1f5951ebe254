use crate::{model::*, nd};
use std::io::{Error, ErrorKind};
use stylish::{Arguments, Display, Formatter, Style, Write};

/// An arbitrary Unicode scalar value and its UTF-8 encoding, by the book.
fn any_char() -> (char, [u8; 4], usize) {
    let x = nd::u32();
    nd::assume(x < 0xd800 || (x >= 0xe000 && x < 0x110000));
    let c = match char::from_u32(x) {
        Some(c) => c,
        None => { nd::assume(false); ' ' }
    };
    let t = |s: u32| 0x80 | ((x >> s) & 0x3f) as u8;
    if x < 0x80 {
        (c, [x as u8, 0, 0, 0], 1)
    } else if x < 0x800 {
        (c, [0xc0 | (x >> 6) as u8, t(0), 0, 0], 2)
    } else if x < 0x10000 {
        (c, [0xe0 | (x >> 12) as u8, t(6), t(0), 0], 3)
    } else {
        (c, [0xf0 | (x >> 18) as u8, t(12), t(6), t(0)], 4)
    }
}
fn one<const N: usize>(b: &[u8; 4], n: usize, s: St) -> Expect<N> {
    let mut e = Expect::<N>::new();
    let mut i = 0;
    while i < n {
        e.push(b[i], s);
        i += 1;
    }
    e
}

struct Styled(char, St, St);
impl Display for Styled {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        Write::write_char(&mut f.with(self.2.style()), self.0, self.1.style())
    }
}
struct Std(char, St);
impl Display for Std {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        core::fmt::Write::write_char(&mut f.with(self.1.style()), self.0)
    }
}

/// A formatter used as a sink, in a style `m` applied to it.
struct Target { m: M, style: St, text: [u8; 2], len: usize }
impl Display for Target {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let mut g = f.with(self.m);
        Write::write_str(&mut g, unsafe { core::str::from_utf8_unchecked(&self.text[..self.len]) }, self.style.style())?;
        g.write_str("-")?;
        let w: &mut dyn Write = &mut g;
        w.write_str("+", self.style.style())?;
        Write::write_fmt(&mut g, stylish::format_args!(".{:(bold)}", '!'))
    }
}

// References -------------------------------------------------------------------------------------

/// Styled text sink with its own version of every operation; each call is checked and answered.
struct Spy { op: u8, c: char, style: St, ok: bool, calls: u8, right: bool }
impl Spy {
    fn answer(&mut self, op: u8, right: bool) -> stylish::Result {
        self.calls += 1;
        if op != self.op || !right {
            self.right = false;
        }
        if self.ok { Ok(()) } else { Err(stylish::Error) }
    }
}
impl Write for Spy {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        let right = s.len() == 1 && s.as_bytes()[0] == self.c as u8 && St::of(style) == self.style;
        self.answer(0, right)
    }
    fn write_char(&mut self, c: char, style: Style) -> stylish::Result {
        let right = c == self.c && St::of(style) == self.style;
        self.answer(1, right)
    }
    fn write_fmt(&mut self, args: Arguments<'_>) -> stylish::Result {
        let mut e = Expect::<2>::new();
        e.push(b'a', DEF);
        e.push(self.c as u8, DEF);
        let mut r = Rec::new(e);
        let right = Write::write_fmt(&mut r, args).is_ok() && r.complete();
        self.answer(2, right)
    }
}
fn drive<W: Write>(mut w: W, op: u8, c: char, s: St) -> bool {
    let r = match op {
        0 => w.write_str(unsafe { core::str::from_utf8_unchecked(&[c as u8]) }, s.style()),
        1 => w.write_char(c, s.style()),
        _ => w.write_fmt(stylish::format_args!("a{}", c)),
    };
    r.is_ok()
}

struct Io { op: u8, data: [u8; 2], len: usize, style: St, answer: u8, n: usize, calls: u8, right: bool }
impl Io {
    fn answer<T>(&mut self, op: u8, right: bool, ok: T) -> std::io::Result<T> {
        self.calls += 1;
        if op != self.op || !right {
            self.right = false;
        }
        match self.answer {
            0 => Ok(ok),
            1 => Err(Error::from(ErrorKind::Interrupted)),
            2 => Err(Error::from(ErrorKind::WriteZero)),
            _ => Err(Error::from(ErrorKind::BrokenPipe)),
        }
    }
    fn same(&self, s: &[u8], style: Style) -> bool {
        s.len() == self.len && (self.len < 1 || s[0] == self.data[0]) && (self.len < 2 || s[1] == self.data[1]) && St::of(style) == self.style
    }
}
impl stylish::io::Write for Io {
    fn write(&mut self, s: &[u8], style: Style) -> std::io::Result<usize> {
        let (right, n) = (self.same(s, style), self.n);
        self.answer(0, right, n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.answer(1, true, ())
    }
    fn write_all(&mut self, s: &[u8], style: Style) -> std::io::Result<()> {
        let right = self.same(s, style);
        self.answer(2, right, ())
    }
    fn write_fmt(&mut self, args: Arguments<'_>) -> std::io::Result<()> {
        let mut e = Expect::<2>::new();
        e.push(b'a', DEF);
        e.push(self.data[0] & 0x7f, DEF);
        let mut r = Rec::new(e);
        let right = Write::write_fmt(&mut r, args).is_ok() && r.complete();
        self.answer(3, right, ())
    }
}
fn io_drive<W: stylish::io::Write>(mut w: W, op: u8, d: &[u8], c: u8, s: St) -> Result<usize, u8> {
    let r = match op {
        0 => w.write(d, s.style()),
        1 => w.flush().map(|()| 0),
        2 => w.write_all(d, s.style()).map(|()| 0),
        _ => {
            let c = (c & 0x7f) as char;
            w.write_fmt(stylish::format_args!("a{}", c)).map(|()| 0)
        }
    };
    r.map_err(|e| match e.kind() {
        ErrorKind::Interrupted => 1,
        ErrorKind::WriteZero => 2,
        ErrorKind::BrokenPipe => 3,
        _ => 4,
    })
}

/// A long text, with an arbitrary byte in it, through references of every sort and a formatter.
struct Copy_<'a>(&'a str, St);
impl Display for Copy_<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        Write::write_str(f, self.0, self.1.style())?;
        Write::write_str(&mut &mut *f, self.0, self.1.style())
    }
}
fn long_text() {
    let n = [2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1030, 4200][nd::concrete(nd::below(13)) as usize];
    let mut text = [b'x'; 4200];
    text[[0, n / 2, n - 1][nd::concrete(nd::below(3)) as usize]] = nd::plain_byte();
    let s = St::any();
    let mut e = Expect::<8400>::new();
    let mut k = 0;
    while k < 2 * n { e.push(text[k % n], s); k += 1; }
    let text = unsafe { core::str::from_utf8_unchecked(&text[..n]) };
    let mut w = Rec::new(e);
    let done = match nd::concrete(nd::below(4)) {
        0 => Write::write_str(&mut &mut w, text, s.style()).is_ok() && Write::write_str(&mut w, text, s.style()).is_ok(),
        1 => {
            let d: &mut dyn Write = &mut w;
            d.write_str(text, s.style()).is_ok() && Write::write_str(&mut &mut *d, text, s.style()).is_ok()
        }
        2 => text.chars().chain(text.chars()).all(|c| Write::write_char(&mut &mut w, c, s.style()).is_ok()),
        _ => stylish::write!(&mut &mut w, "{:s}", Copy_(text, s)).is_ok(),
    };
    assert!(done && w.complete(), "the text in exactly the given style");
}
/// Byte sink that wants long buffers as they are and fails with errors of every make.
struct Bytes_ { text: [u8; 8200], len: usize, style: St, op: u8, answer: u8, calls: u8, right: bool }
#[derive(Debug)]
struct Payload(u8);
impl core::fmt::Display for Payload {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl std::error::Error for Payload {}
impl Bytes_ {
    fn answer<T>(&mut self, op: u8, s: &[u8], style: Style, ok: T) -> std::io::Result<T> {
        self.calls += 1;
        self.right &= op == self.op && s.len() == self.len && St::of(style) == self.style;
        let mut i = 0;
        while self.right && i < s.len() {
            self.right &= s[i] == self.text[i];
            i += 1;
        }
        match self.answer {
            0 => Ok(ok),
            1 => Err(Error::from_raw_os_error(28)),
            2 => Err(Error::new(ErrorKind::WouldBlock, Payload(77))),
            _ => Err(Error::new(ErrorKind::Interrupted, Payload(78))),
        }
    }
}
impl stylish::io::Write for Bytes_ {
    fn write(&mut self, s: &[u8], style: Style) -> std::io::Result<usize> { self.answer(0, s, style, 1) }
    fn flush(&mut self) -> std::io::Result<()> { self.right = false; Ok(()) }
    fn write_all(&mut self, s: &[u8], style: Style) -> std::io::Result<()> { self.answer(1, s, style, ()) }
}
fn long_bytes() {
    let n = [3, 64, 65, 128, 255, 256, 257, 300, 4200, 8200][nd::concrete(nd::below(10)) as usize];
    let mut text = [b'x'; 8200];
    text[[0, n / 2, n - 1][nd::concrete(nd::below(3)) as usize]] = nd::u8();
    let (op, answer, s) = (nd::concrete(nd::below(2)), nd::concrete(nd::below(4)), St::any());
    let mut w = Bytes_ { text, len: n, style: s, op, answer, calls: 0, right: true };
    fn put(mut w: impl stylish::io::Write, op: u8, t: &[u8], s: Style) -> std::io::Result<()> {
        if op == 0 { w.write(t, s).map(|k| assert!(k == 1, "the sink's count")) } else { w.write_all(t, s) }
    }
    let r = match nd::concrete(nd::below(4)) {
        0 => put(&mut w, op, &text[..n], s.style()),
        1 => put(&mut &mut w, op, &text[..n], s.style()),
        2 => put(stylish::io::Write::by_ref(&mut w), op, &text[..n], s.style()),
        _ => {
            let d: &mut dyn stylish::io::Write = &mut w;
            put(d, op, &text[..n], s.style())
        }
    };
    assert!(w.right && w.calls == 1, "forwarded as is");
    let payload = |e: &Error| e.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0);
    assert!(match (answer, &r) {
        (0, Ok(())) => true,
        (1, Err(e)) => e.raw_os_error() == Some(28),
        (2, Err(e)) => e.kind() == ErrorKind::WouldBlock && payload(e) == Some(77),
        (3, Err(e)) => e.kind() == ErrorKind::Interrupted && payload(e) == Some(78),
        _ => false,
    }, "the sink's own result");
}

harnesses! {
    [6] fn q_long_text() { long_text() }
    [6] fn q_long_bytes() { long_bytes() }
    [6] fn q_char() {
        let (c, b, n) = any_char();
        let s = St::any();
        let mut w = Rec::new(one::<4>(&b, n, s));
        assert!(Write::write_char(&mut w, c, s.style()).is_ok() && w.complete(), "the character's encoding in its style");
        let mut w = Rec::new(one::<4>(&b, n, s));
        assert!(Write::write_char(&mut &mut w, c, s.style()).is_ok() && w.complete(), "the same through a reference");
    }
    [6] fn q_char_formatter() {
        let (c, b, n) = any_char();
        let (s, around) = (St::any(), St::few());
        let mut w = Rec::new(one::<4>(&b, n, s));
        assert!(stylish::write!(w, "{:s}", Styled(c, s, around)).is_ok() && w.complete(), "a formatter writes the character in the given style");
        let mut w = Rec::new(one::<4>(&b, n, s));
        assert!(stylish::write!(w, "{:s}", Std(c, s)).is_ok() && w.complete(), "a formatter writes the character in its own style");
        let mut w = Rec::new(one::<4>(&b, n, DEF));
        assert!(stylish::write!(w, "{}", c).is_ok() && w.complete(), "a displayed character is itself");
    }
    [6] fn q_char_ansi() {
        let (c, b, n) = any_char();
        nd::assume(b[0] != 0x1b);
        let s = St::few();
        let mut w = stylish::ansi(Term::new(one::<4>(&b, n, s)));
        assert!(w.write_char(c, s.style()).is_ok(), "write succeeds");
        match w.finish() {
            Ok(t) => assert!(t.right && t.wellformed && t.shown == n, "the character in its style"),
            Err(_) => assert!(false, "finish succeeds"),
        }
    }
    [6] fn q_char_html() {
        let (c, b, n) = any_char();
        let s = St::few();
        let mut w = stylish::html(Page::new(one::<4>(&b, n, s)));
        assert!(w.write_char(c, s.style()).is_ok(), "write succeeds");
        match w.finish() {
            Ok(p) => assert!(p.text_right && p.style_right && p.wellformed && p.closed() && p.shown == n, "the character in its style"),
            Err(_) => assert!(false, "finish succeeds"),
        }
    }
    [6] fn q_char_plain() {
        let (c, b, n) = any_char();
        let mut w = stylish::plain(Rec::new(one::<4>(&b, n, DEF)));
        assert!(Write::write_char(&mut w, c, St::any().style()).is_ok(), "write succeeds");
        assert!(w.into_inner().complete(), "the character's encoding");
    }
    [6] fn q_char_string() {
        let (c, b, n) = any_char();
        let s = St::few();
        let mut t = stylish::String::new();
        assert!(t.write_char(c, s.style()).is_ok(), "write succeeds");
        let mut w = Rec::new(one::<4>(&b, n, s));
        assert!(stylish::write!(w, "{:s}", t).is_ok() && w.complete(), "the character in its style");
    }
    [6] fn q_formatter_as_sink() {
        let v = Target { m: M::any(), style: St::any(), text: [nd::plain_byte(), nd::plain_byte()], len: nd::below(3) as usize };
        let own = v.m.model(DEF);
        let mut e = Expect::<6>::new();
        let mut i = 0;
        while i < v.len {
            e.push(v.text[i], v.style);
            i += 1;
        }
        e.push(b'-', own);
        e.push(b'+', v.style);
        e.push(b'.', own);
        e.push(b'!', St { i: 1, ..own });
        let mut w = Rec::new(e);
        assert!(stylish::write!(w, "{:s}", v).is_ok() && w.complete(), "text in exactly the given style");
    }
    [6] fn q_text_reference() {
        let (op, s, ok) = (nd::below(3), St::any(), nd::bool());
        let b = nd::u8();
        nd::assume(b < 128);
        let mut w = Spy { op, c: b as char, style: s, ok, calls: 0, right: true };
        assert!(drive(&mut w, op, b as char, s) == ok && w.right && w.calls == 1, "forwarded as is");
        w.calls = 0;
        assert!(drive(&mut &mut w, op, b as char, s) == ok && w.right && w.calls == 1, "forwarded as is, twice removed");
        w.calls = 0;
        let d: &mut dyn Write = &mut w;
        assert!(drive(d, op, b as char, s) == ok && w.right && w.calls == 1, "forwarded as is, dynamically");
    }
    [6] fn q_byte_reference() {
        let (op, s, answer, n) = (nd::below(4), St::any(), nd::below(4), nd::usize());
        let data = [nd::u8(), nd::u8()];
        let len = nd::below(3) as usize;
        let want = if answer == 0 { Ok(if op == 0 { n } else { 0 }) } else { Err(answer) };
        let mut w = Io { op, data, len, style: s, answer, n, calls: 0, right: true };
        assert!(io_drive(&mut w, op, &data[..len], data[0], s) == want && w.right && w.calls == 1, "forwarded as is");
        w.calls = 0;
        assert!(io_drive(&mut &mut w, op, &data[..len], data[0], s) == want && w.right && w.calls == 1, "forwarded as is, twice removed");
        w.calls = 0;
        assert!(io_drive(stylish::io::Write::by_ref(&mut w), op, &data[..len], data[0], s) == want && w.right && w.calls == 1, "forwarded as is, by reference");
        w.calls = 0;
        let d: &mut dyn stylish::io::Write = &mut w;
        assert!(io_drive(d, op, &data[..len], data[0], s) == want && w.right && w.calls == 1, "forwarded as is, dynamically");
    }
}
