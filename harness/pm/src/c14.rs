//! The real format-string parser against an independent one.
use super::{grammar::*, nd};
use crate::format::{Align, Count, DebugHex, Format, FormatArg, FormatArgRef, FormatTrait, Parse as _, Piece, Sign};
use stylish_style::{Color, Intensity};

fn color_index(c: Color) -> u8 {
    match c {
        Color::Black => 0, Color::Red => 1, Color::Green => 2, Color::Yellow => 3, Color::Blue => 4, Color::Magenta => 5,
        Color::Cyan => 6, Color::White => 7, Color::BrightBlack => 8, Color::BrightRed => 9, Color::BrightGreen => 10,
        Color::BrightYellow => 11, Color::BrightBlue => 12, Color::BrightMagenta => 13, Color::BrightCyan => 14,
        Color::BrightWhite => 15, Color::Default => 16, _ => 255,
    }
}
fn intensity_index(i: Intensity) -> u8 {
    match i { Intensity::Normal => 0, Intensity::Bold => 1, Intensity::Faint => 2, _ => 255 }
}
/// Counts given by an argument are outside the supported grammar: the macro rejects them later on.
fn count(c: Option<Count<'_>>) -> Option<Option<usize>> {
    match c {
        None => Some(None),
        Some(Count::Integer(n)) => Some(Some(n)),
        Some(Count::Parameter(_)) => None,
    }
}
fn supported(p: &Piece<'_>) -> bool {
    match p {
        Piece::Lit(_) => true,
        Piece::Arg(a) => {
            let f = &a.format_spec.formatter_args;
            // The macro cannot make an identifier of a lone underscore and rejects it.
            let lone = matches!(a.arg, Some(FormatArgRef::Named(n)) if n.len() == 1 && n.as_bytes()[0] == b'_');
            !lone && count(f.width).is_some() && count(f.precision).is_some()
        }
    }
}
/// The placeholder as the parser understood it, the argument reference aside.
fn understood(a: &FormatArg<'_>) -> Spec {
    let f = &a.format_spec.formatter_args;
    let d = &a.format_spec.style;
    Spec {
        arg: Ref::Next,
        align: match f.align { None => 0, Some(Align::Left) => 1, Some(Align::Center) => 2, Some(Align::Right) => 3 },
        sign: match f.sign { None => 0, Some(Sign::Plus) => 1, Some(Sign::Minus) => 2 },
        alternate: f.alternate,
        zero: f.zero,
        width: count(f.width).unwrap_or(None),
        precision: count(f.precision).unwrap_or(None),
        fg: d.foreground.map(color_index),
        bg: d.background.map(color_index),
        intensity: d.intensity.map(intensity_index),
        hex: match f.debug_hex { None => 0, Some(DebugHex::Lower) => 1, Some(DebugHex::Upper) => 2 },
        select: match a.format_spec.format_trait {
            FormatTrait::Display => 0, FormatTrait::Debug => 1, FormatTrait::Octal => 2, FormatTrait::LowerHex => 3,
            FormatTrait::UpperHex => 4, FormatTrait::Pointer => 5, FormatTrait::Binary => 6, FormatTrait::LowerExp => 7,
            FormatTrait::UpperExp => 8, FormatTrait::Stylish => 9,
        },
    }
}
fn same_reference(want: Ref, got: Option<FormatArgRef<'_>>, s: &[u8]) -> bool {
    match (want, got) {
        (Ref::Next, None) => true,
        (Ref::At(a), Some(FormatArgRef::Positional(b))) => a == b,
        (Ref::Name(at, len), Some(FormatArgRef::Named(n))) => {
            let mut i = 0;
            while i < len && i < n.len() && s[at + i] == n.as_bytes()[i] { i += 1; }
            i == len && i == n.len()
        }
        _ => false,
    }
}

fn agree(s: &[u8]) {
    let want = match reference(s) {
        Ok(i) => Some(i),
        Err(No::Rejected) => None,
        Err(No::Unsupported) => {
            nd::assume(false);
            None
        }
    };
    let got = match Format::parse(unsafe { core::str::from_utf8_unchecked(s) }) {
        Ok((rest, f)) if rest.is_empty() && f.pieces.iter().all(supported) => Some(f),
        _ => None,
    };
    #[cfg(not(feature = "symx"))]
    show(s, want.as_ref(), got.as_ref());
    match (want, got) {
        (None, None) => (),
        (None, Some(_)) => assert!(false, "a string outside the grammar is rejected"),
        (Some(_), None) => assert!(false, "a string within the grammar is accepted"),
        (Some(w), Some(g)) => {
            let mut k = 0;
            for p in &g.pieces {
                match p {
                    Piece::Lit(t) => for b in t.bytes() {
                        assert!(k < w.len && matches!(w.item[k], Item::Text(a) if a == b), "literal text is what the grammar says");
                        k += 1;
                    },
                    Piece::Arg(g) => {
                        assert!(k < w.len, "as many pieces as the grammar says");
                        match w.item[k] {
                            Item::Arg(a) => {
                                let b = understood(g);
                                assert!(same_reference(a.arg, g.arg, s), "argument reference");
                                assert!(a.align == b.align && a.sign == b.sign && a.alternate == b.alternate && a.zero == b.zero, "flags");
                                assert!(a.width == b.width && a.precision == b.precision, "counts");
                                assert!(a.fg == b.fg && a.bg == b.bg && a.intensity == b.intensity, "attributes");
                                assert!(a.select == b.select && a.hex == b.hex, "trait selector");
                            }
                            Item::Text(_) => assert!(false, "text and placeholders alternate as the grammar says"),
                        }
                        k += 1;
                    }
                }
            }
            assert!(k == w.len, "as many pieces as the grammar says");
        }
    }
}

/// Tells the check what the string is and means, so that it can try it on the compiled macro (../../../bin/props.py).
#[cfg(not(feature = "symx"))]
fn show(s: &[u8], want: Option<&Items>, got: Option<&Format<'_>>) {
    println!("string {}", s.iter().map(|b| format!("{b:02x}")).collect::<String>());
    let name = |at: usize, len: usize| String::from_utf8_lossy(&s[at..at + len]).into_owned();
    match want {
        None => println!("want rejected"),
        Some(w) => for item in &w.item[..w.len] {
            match item {
                Item::Text(b) => println!("want text {b}"),
                Item::Arg(p) => {
                    let r = match p.arg { Ref::Next => "next".into(), Ref::At(n) => format!("at {n}"), Ref::Name(a, l) => format!("name {}", name(a, l)) };
                    let c = |o: Option<usize>, dot: &str| o.map_or(String::new(), |n| format!("{dot}{n}"));
                    let spec = format!(
                        "{}{}{}{}{}{}{}", ["", "<", "^", ">"][p.align as usize], ["", "+", "-"][p.sign as usize], if p.alternate { "#" } else { "" },
                        if p.zero { "0" } else { "" }, c(p.width, ""), c(p.precision, "."),
                        ["", "?", "o", "x", "X", "p", "b", "e", "E", "s", "x?", "X?"][if p.hex > 0 { 9 + p.hex as usize } else { p.select as usize }],
                    );
                    println!("want arg |{spec}|{}|{}|{}| {r}", p.fg.map_or(-1, |x| x as i32), p.bg.map_or(-1, |x| x as i32), p.intensity.map_or(-1, |x| x as i32));
                }
            }
        },
    }
    match got {
        None => println!("got rejected"),
        Some(g) => for p in &g.pieces {
            if let Piece::Arg(a) = p {
                match a.arg {
                    None => println!("got next"),
                    Some(FormatArgRef::Positional(n)) => println!("got at {n}"),
                    Some(FormatArgRef::Named(n)) => println!("got name {n}"),
                }
            }
        },
    }
}

impl Text {
    fn check(&self) { agree(self.bytes()) }
}

/// One byte of a valid string is replaced by an arbitrary one.
fn spoilt(s: &[u8]) {
    let mut t = Text::new();
    t.str(s);
    let at = nd::below(s.len() as u8) as usize;
    let c = nd::u8();
    nd::assume(c < 128);
    t.b[at] = c;
    t.check();
}

harnesses! {
    fn q_any() { Text::new().free(7).check() }
    fn q_body() { Text::new().byte(b'{').free(6).byte(b'}').check() }
    fn q_spec() { Text::new().str(b"{:").free(6).byte(b'}').check() }
    fn q_after_align() { Text::new().str(b"{:<").free(4).byte(b'}').check() }
    fn q_precision() { Text::new().str(b"{:.").free(4).byte(b'}').check() }
    fn q_attributes() { Text::new().str(b"{:(").free(4).str(b")}").check() }
    fn q_after_attributes() { Text::new().str(b"{:(bold").free(4).byte(b'}').check() }
    fn q_color_tail() { Text::new().str(b"{:(fg=").str(NAMES[nd::below(17) as usize]).free(2).str(b")}").check() }
    fn q_color_free() { Text::new().str(b"{:(bg=").free(5).str(b")}").check() }
    fn q_two_attributes() {
        let mut t = Text::new();
        t.str(b"{:(");
        attribute(&mut t);
        t.byte(b',');
        attribute(&mut t);
        if nd::bool() { t.byte(b','); }
        t.str(b")}");
        t.check();
    }
    fn q_placeholder() {
        let mut t = Text::new();
        placeholder(&mut t, true);
        t.check();
    }
    fn q_wide_text() { Text::new().wide().free(2).wide().str(b"{}").wide().free(1).check() }
    fn q_wide_name() { Text::new().byte(b'{').free(1).wide().free(1).wide().free(1).byte(b'}').check() }
    fn q_wide_spec() { Text::new().str(b"{a").wide().byte(b':').free(2).wide().free(2).byte(b'}').check() }
    fn q_wide_attributes() { Text::new().str(b"{:(").free(1).wide().str(b"bold").free(1).wide().str(b")").wide().str(b"}").check() }
    fn q_big_number() {
        let lead: [&[u8]; 3] = [b"{", b"{:", b"{:."];
        let mut t = Text::new();
        t.str(lead[nd::below(3) as usize]).str(b"1844674407370955161").free(2).byte(b'}').check()
    }
    fn q_around() { Text::new().free(2).str(b"{0:?}").free(2).check() }
    fn q_spoilt() { spoilt(b"a{{{b:<+#08.3(fg=red,bold,)x?}}}c{1 }") }
    fn t_any() { Text::new().free(8).check() }
    fn t_body() { Text::new().byte(b'{').free(7).byte(b'}').check() }
    fn t_spec() { Text::new().str(b"{:").free(7).byte(b'}').check() }
    fn q_more_attributes() { Text::new().str(b"{:(").free(6).str(b")}").check() }
    fn q_long_placeholder() {
        let mut t = Text::new();
        placeholder(&mut t, false);
        t.check();
    }
    fn q_two_placeholders() {
        let mut t = Text::new();
        t.free(1).str(b"{").free(2).str(b"}").free(1).str(b"{").free(2).byte(b'}').check();
    }
}
