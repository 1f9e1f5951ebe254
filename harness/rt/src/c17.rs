use crate::{model::*, nd};
use core::cell::Cell;
use stylish::{Display, Formatter, Style, Write};

/// Text sink that fails at one symbolic call and notices being called again afterwards.
struct Sink<'a> { at: u8, calls: u16, failed: &'a Cell<bool>, again: &'a Cell<bool> }
impl Sink<'_> {
    fn call(&mut self) -> core::fmt::Result {
        if self.failed.get() {
            self.again.set(true);
        }
        let c = self.calls;
        self.calls += 1;
        if c == self.at as u16 {
            self.failed.set(true);
            return Err(core::fmt::Error);
        }
        Ok(())
    }
}
impl core::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let _ = s;
        self.call()
    }
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        let _ = (s, style);
        self.call()
    }
}

struct Seen { failed: Cell<bool>, again: Cell<bool> }
impl Seen {
    fn new() -> Seen { Seen { failed: Cell::new(false), again: Cell::new(false) } }
    fn sink(&self) -> Sink<'_> { self.sink_at(nd::u8()) }
    fn sink_at(&self, at: u8) -> Sink<'_> { Sink { at, calls: 0, failed: &self.failed, again: &self.again } }
    /// Judges one operation; true when it failed.
    fn judge(&self, r: stylish::Result) -> bool {
        assert!(!self.again.get(), "a failed sink is not written to again");
        assert!(r.is_err() == self.failed.get(), "failure is reported exactly when the sink fails");
        r.is_err()
    }
}

/// Up to `K` writes of 0..2 bytes through an adaptor, then finishing.
fn adaptor<const K: usize>(kind: u8, pick: fn() -> St) {
    let seen = Seen::new();
    let mut text = [[0u8; 2]; K];
    let mut len = [0usize; K];
    let mut style = [DEF; K];
    let mut k = 0;
    while k < K {
        text[k] = [nd::u8(), nd::u8()];
        nd::assume(text[k][0] < 128 && text[k][1] < 128);
        len[k] = nd::below(3) as usize;
        style[k] = pick();
        k += 1;
    }
    macro_rules! drive {
        ($new:expr, $end:ident) => {{
            let mut w = $new(seen.sink());
            let mut k = 0;
            while k < K {
                let s = unsafe { core::str::from_utf8_unchecked(&text[k][..len[k]]) };
                if seen.judge(Write::write_str(&mut w, s, style[k].style())) {
                    return;
                }
                k += 1;
            }
            let r = w.finish();
            seen.judge(r.map(|_| ()));
        }};
    }
    if kind == 0 {
        drive!(stylish::ansi, finish)
    } else if kind == 1 {
        drive!(stylish::html, finish)
    } else {
        let mut w = stylish::plain(seen.sink());
        let mut k = 0;
        while k < K {
            let s = unsafe { core::str::from_utf8_unchecked(&text[k][..len[k]]) };
            if seen.judge(Write::write_str(&mut w, s, style[k].style())) {
                return;
            }
            k += 1;
        }
    }
}

struct Flat(M, M);
impl Display for Flat {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.write_str("a")?;
        f.with(self.0).write_str("b")?;
        stylish::write!(f, "c{:(bold)}d", 'x')?;
        f.with(self.1).write_fmt(stylish::format_args!("e{:>3}{:s}f", 'y', Inner))?;
        core::fmt::Write::write_str(f, "g")?;
        Write::write_str(f, "h", Style::default())?;
        Write::write_char(f, 'i', Style::default())
    }
}
struct Inner;
impl Display for Inner {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.write_str("m")?;
        f.write_str("n")
    }
}
fn formatter() {
    let seen = Seen::new();
    let v = Flat(M::any(), M::any());
    let mut w = seen.sink();
    seen.judge(stylish::write!(w, "<{:s}{:(fg=red)?}>", v, 7u8));
}
fn string<const K: usize>() {
    let mut s = stylish::String::new();
    let mut k = 0;
    while k < K {
        let c = nd::plain_byte();
        let n = nd::below(2) as usize;
        assert!(Write::write_str(&mut s, unsafe { core::str::from_utf8_unchecked(&[c][..n]) }, St::few().style()).is_ok(), "string never fails");
        k += 1;
    }
    let seen = Seen::new();
    let mut w = seen.sink();
    seen.judge(stylish::write!(w, "<{:s}>", s));
}
/// Through an adaptor and a formatter at once.
fn formatted(kind: u8) {
    let seen = Seen::new();
    let v = Flat(M::builtin(), M { kind: 4, s: DEF, h: 0 });
    if kind == 0 {
        let mut w = stylish::ansi(seen.sink());
        if !seen.judge(stylish::write!(w, "<{:s}{:(fg=red)}>\n", v, '&')) {
            let r = w.finish();
            seen.judge(r.map(|_| ()));
        }
    } else if kind == 1 {
        let mut w = stylish::html(seen.sink());
        if !seen.judge(stylish::writeln!(w, "<{:s}{:(fg=red)}>", v, '&')) {
            let r = w.finish();
            seen.judge(r.map(|_| ()));
        }
    } else {
        let mut w = stylish::plain(seen.sink());
        seen.judge(stylish::writeln!(&mut w, "<{:s}{:(fg=red)}>", v, '&'));
    }
}
fn fewer() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(3) } }
/// Writes through any operation, of wide characters too.
fn mixed<const K: usize>(kind: u8, kinds: u8, by: [u8; K]) { judged(kind, &Hist::<K>::of(kinds, || St { f: if nd::bool() { 16 } else { 12 }, ..DEF }), by, nd::u8()) }
fn judged<const K: usize>(kind: u8, h: &Hist<K>, by: [u8; K], at: u8) {
    let seen = Seen::new();
    macro_rules! drive {
        ($w:ident) => {{
            let mut k = 0;
            while k < K {
                let s = unsafe { core::str::from_utf8_unchecked(&h.text[k][..h.len[k]]) };
                if seen.judge(give_by(by[k], &mut $w, s, h.style[k])) {
                    return;
                }
                k += 1;
            }
        }};
    }
    let sink = seen.sink_at(at);
    if kind == 0 {
        let mut w = stylish::ansi(sink);
        drive!(w);
        seen.judge(w.finish().map(|_| ()));
    } else if kind == 1 {
        let mut w = stylish::html(sink);
        drive!(w);
        seen.judge(w.finish().map(|_| ()));
    } else if kind == 2 {
        let mut w = stylish::plain(sink);
        drive!(w);
    } else {
        let mut w = sink;
        drive!(w);
    }
}
/// A long text with markup in it.
fn long(kind: u8) {
    let n = [60, 64, 65, 128, 129, 300, 1030, 4200][nd::concrete(nd::below(8)) as usize];
    let mut text = [b'x'; 4200];
    let mut i = 0;
    while i < 4200 { text[i] = if i % 9 == 8 { b'<' } else { b'x' }; i += 1; }
    text[n / 2] = nd::plain_byte();
    let seen = Seen::new();
    let s = unsafe { core::str::from_utf8_unchecked(&text[..n]) };
    let (a, b) = (few_styles(), St { f: 1, ..DEF });
    macro_rules! drive {
        ($w:ident) => {{
            if seen.judge(Write::write_str(&mut $w, s, a.style())) { return; }
            if seen.judge(Write::write_str(&mut $w, s, b.style())) { return; }
        }};
    }
    if kind == 0 {
        let mut w = stylish::ansi(seen.sink());
        drive!(w);
        seen.judge(w.finish().map(|_| ()));
    } else if kind == 1 {
        let mut w = stylish::html(seen.sink());
        drive!(w);
        seen.judge(w.finish().map(|_| ()));
    } else if kind == 2 {
        let mut w = stylish::plain(seen.sink());
        drive!(w);
    } else {
        let mut t = stylish::String::new();
        assert!(Write::write_str(&mut t, s, a.style()).is_ok() && Write::write_str(&mut t, s, b.style()).is_ok(), "string never fails");
        let mut w = seen.sink();
        seen.judge(stylish::write!(w, "<{:s}>", t));
    }
}
/// A string of many runs.
fn runs() {
    let h = Hist::<60>::longs();
    let mut s = stylish::String::new();
    h.put(&mut s);
    let seen = Seen::new();
    let mut w = seen.sink();
    seen.judge(stylish::write!(w, "<{:s}>", s));
}

harnesses! {
    [6] fn q_ansi_ops() { mixed::<2>(0, 3, ops()) }
    [6] fn q_html_ops() { mixed::<2>(1, 3, ops()) }
    [6] fn q_plain_ops() { mixed::<2>(2, 3, ops()) }
    [6] fn q_sink_ops() { mixed::<2>(3, 3, ops()) }
    [6] fn q_ansi_mixed() { mixed::<2>(0, 6, [0; 2]) }
    [6] fn q_html_mixed() { mixed::<2>(1, 6, [0; 2]) }
    [6] fn q_ansi_long() { long(0) }
    [6] fn q_html_long() { long(1) }
    [6] fn q_plain_long() { long(2) }
    [6] fn q_string_long() { long(3) }
    [6] fn q_runs() { runs() }
    [6] fn q_ansi_many() { judged(0, &Hist::<60>::longs(), [0; 60], nd::u8()) }
    [6] fn q_html_many() { judged(1, &Hist::<60>::longs(), [0; 60], nd::u8()) }
    [6] fn q_ansi() { adaptor::<2>(0, St::few) }
    [6] fn q_html() { adaptor::<2>(1, St::few) }
    [6] fn q_plain() { adaptor::<2>(2, St::few) }
    [6] fn q_formatter() { formatter() }
    [6] fn q_string() { string::<3>() }
    [6] fn q_ansi_formatted() { formatted(0) }
    [6] fn q_html_formatted() { formatted(1) }
    [6] fn q_plain_formatted() { formatted(2) }
    [6] fn q_ansi_three() { adaptor::<3>(0, fewer) }
    [6] fn t_ansi() { adaptor::<2>(0, St::any) }
    [6] fn t_html() { adaptor::<2>(1, St::any) }
    [6] fn t_ansi_three() { adaptor::<3>(0, St::few) }
    [6] fn t_html_three() { adaptor::<3>(1, fewer) }
    [6] fn t_string() { string::<4>() }
}
