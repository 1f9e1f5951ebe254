//! Reference models, written independently of the code under test.
use crate::nd;

/// Runs a statement for each byte of a chunk. Sinks see short chunks, so by default the first few
/// iterations are spelt out (loop bounds then follow the code under test, not the longest chunk);
/// a longer chunk trips the capacity assertion, on which the driver rebuilds with `roomy`.
macro_rules! each {
    ($s:expr, $c:ident, [$($i:literal)*] => $e:expr) => {{
        let s: &[u8] = $s;
        #[cfg(any(feature = "roomy", not(kani)))]
        {
            let mut i = 0;
            while i < s.len() {
                let $c = s[i];
                $e;
                i += 1;
            }
        }
        #[cfg(not(any(feature = "roomy", not(kani))))]
        {
            let n = s.len();
            $( if n > $i { let $c = s[$i]; $e; } )*
            assert!(n <= 0 $(+ { let _ = $i; 1 })*, "CAPACITY: chunk length");
        }
    }};
}
pub(crate) use each;
use stylish::{Color, Intensity, Style};

pub fn color(k: u8) -> Color {
    match k {
        0 => Color::Black,
        1 => Color::Red,
        2 => Color::Green,
        3 => Color::Yellow,
        4 => Color::Blue,
        5 => Color::Magenta,
        6 => Color::Cyan,
        7 => Color::White,
        8 => Color::BrightBlack,
        9 => Color::BrightRed,
        10 => Color::BrightGreen,
        11 => Color::BrightYellow,
        12 => Color::BrightBlue,
        13 => Color::BrightMagenta,
        14 => Color::BrightCyan,
        15 => Color::BrightWhite,
        _ => Color::Default,
    }
}

pub fn color_index(c: Color) -> u8 {
    match c {
        Color::Black => 0,
        Color::Red => 1,
        Color::Green => 2,
        Color::Yellow => 3,
        Color::Blue => 4,
        Color::Magenta => 5,
        Color::Cyan => 6,
        Color::White => 7,
        Color::BrightBlack => 8,
        Color::BrightRed => 9,
        Color::BrightGreen => 10,
        Color::BrightYellow => 11,
        Color::BrightBlue => 12,
        Color::BrightMagenta => 13,
        Color::BrightCyan => 14,
        Color::BrightWhite => 15,
        Color::Default => 16,
        _ => 255,
    }
}

pub fn intensity(k: u8) -> Intensity {
    match k {
        1 => Intensity::Bold,
        2 => Intensity::Faint,
        _ => Intensity::Normal,
    }
}

pub fn intensity_index(i: Intensity) -> u8 {
    match i {
        Intensity::Normal => 0,
        Intensity::Bold => 1,
        Intensity::Faint => 2,
        _ => 255,
    }
}

/// A style as three small numbers; 16 is the default colour, 0 the normal intensity.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct St {
    pub f: u8,
    pub b: u8,
    pub i: u8,
}

pub const DEF: St = St { f: 16, b: 16, i: 0 };

impl St {
    pub fn any() -> St {
        St { f: nd::below(17), b: nd::below(17), i: nd::below(3) }
    }
    /// One of a few styles: two colours (one bright) and the default, every intensity.
    pub fn few() -> St {
        let c = |k: u8| if k == 0 { 16 } else if k == 1 { 1 } else { 12 };
        St { f: c(nd::below(3)), b: c(nd::below(3)), i: nd::below(3) }
    }
    /// Builds the public value field by field (not through the code under test).
    pub fn style(self) -> Style {
        let mut s = Style::default();
        s.foreground = color(self.f);
        s.background = color(self.b);
        s.intensity = intensity(self.i);
        s
    }
    pub fn of(s: Style) -> St {
        St { f: color_index(s.foreground), b: color_index(s.background), i: intensity_index(s.intensity) }
    }
}

/// Text and styles a sink is expected to show, at most `N` bytes.
#[derive(Clone, Copy, Debug)]
pub struct Expect<const N: usize> {
    pub byte: [u8; N],
    pub style: [St; N],
    pub len: usize,
}

impl<const N: usize> Expect<N> {
    pub fn new() -> Self {
        Expect { byte: [0; N], style: [DEF; N], len: 0 }
    }
    pub fn push(&mut self, byte: u8, style: St) {
        self.byte[self.len] = byte;
        self.style[self.len] = style;
        self.len += 1;
    }
}

/// Terminal emulator for the text adaptor: a byte-at-a-time SGR interpreter that compares every
/// displayed byte with what is expected at that position. Bold and faint are separate attributes.
#[derive(Clone, Copy, Debug)]
pub struct Term<const N: usize> {
    pub exp: Expect<N>,
    pub shown: usize,
    /// every shown byte had the expected value and style
    pub right: bool,
    /// only well-formed, known escape sequences so far
    pub wellformed: bool,
    /// every escape code named only components that it changes, or reset everything
    pub minimal: bool,
    /// number of complete escape sequences
    pub escapes: u16,
    before: St,
    touched: u8,
    phase: u8,
    num: u16,
    digits: bool,
    f: u8,
    b: u8,
    bold: bool,
    faint: bool,
}

impl<const N: usize> Term<N> {
    pub fn new(exp: Expect<N>) -> Self {
        Term {
            exp, shown: 0, right: true, wellformed: true, minimal: true, escapes: 0,
            before: DEF, touched: 0, phase: 0, num: 0, digits: false, f: 16, b: 16, bold: false, faint: false,
        }
    }
    pub fn shows(&self, s: St) -> bool {
        self.f == s.f && self.b == s.b && self.bold == (s.i == 1) && self.faint == (s.i == 2)
    }
    pub fn at_rest(&self) -> bool {
        self.phase == 0
    }
    /// The displayed style, intensity 3 being bold and faint at once.
    pub fn now(&self) -> St {
        St { f: self.f, b: self.b, i: self.bold as u8 + 2 * (self.faint as u8) }
    }
    fn sgr(&mut self) {
        let n = self.num;
        if !self.digits || n == 0 {
            self.f = 16;
            self.b = 16;
            self.bold = false;
            self.faint = false;
            self.touched |= 8;
        } else if n == 1 {
            self.bold = true;
            self.touched |= 4;
        } else if n == 2 {
            self.faint = true;
            self.touched |= 4;
        } else if n == 22 {
            self.bold = false;
            self.faint = false;
            self.touched |= 4;
        } else if n >= 30 && n <= 37 {
            self.f = (n - 30) as u8;
            self.touched |= 1;
        } else if n == 39 {
            self.f = 16;
            self.touched |= 1;
        } else if n >= 40 && n <= 47 {
            self.b = (n - 40) as u8;
            self.touched |= 2;
        } else if n == 49 {
            self.b = 16;
            self.touched |= 2;
        } else if n >= 90 && n <= 97 {
            self.f = (n - 90) as u8 + 8;
            self.touched |= 1;
        } else if n >= 100 && n <= 107 {
            self.b = (n - 100) as u8 + 8;
            self.touched |= 2;
        } else {
            self.wellformed = false;
        }
        self.num = 0;
        self.digits = false;
    }
    fn end_of_escape(&mut self) {
        let (old, new, t) = (self.before, self.now(), self.touched);
        if t & 8 != 0 {
            if new != DEF || old == DEF {
                self.minimal = false;
            }
        } else if (t & 1 != 0) != (old.f != new.f)
            || (t & 2 != 0) != (old.b != new.b)
            || (t & 4 != 0) != (old.i != new.i)
        {
            self.minimal = false;
        }
        self.escapes += 1;
    }
    pub fn byte(&mut self, c: u8) {
        if self.phase == 0 {
            if c == 0x1b {
                self.phase = 1;
                self.touched = 0;
                self.before = self.now();
            } else {
                let i = self.shown;
                if i >= self.exp.len || self.exp.byte[i] != c || !self.shows(self.exp.style[i]) {
                    self.right = false;
                } else {
                    self.shown += 1;
                }
            }
        } else if self.phase == 1 {
            if c == b'[' {
                self.phase = 2;
            } else {
                self.wellformed = false;
            }
        } else if c >= b'0' && c <= b'9' {
            if self.num > 1000 {
                self.wellformed = false;
            } else {
                self.num = self.num * 10 + (c - b'0') as u16;
                self.digits = true;
            }
        } else if c == b';' {
            self.sgr();
        } else if c == b'm' {
            self.sgr();
            self.phase = 0;
            self.end_of_escape();
        } else {
            self.wellformed = false;
        }
    }
    pub fn bytes(&mut self, s: &[u8]) {
        each!(s, c, [0 1 2 3] => self.byte(c));
    }
}

impl<const N: usize> core::fmt::Write for Term<N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}

/// Styled text sink that compares everything it is given with what is expected.
#[derive(Clone, Copy, Debug)]
pub struct Rec<const N: usize> {
    pub exp: Expect<N>,
    pub seen: usize,
    pub right: bool,
}

impl<const N: usize> Rec<N> {
    pub fn new(exp: Expect<N>) -> Self {
        Rec { exp, seen: 0, right: true }
    }
    pub fn take(&mut self, s: &[u8], style: St) {
        let mut k = 0;
        while k < s.len() {
            let i = self.seen;
            if i >= self.exp.len || self.exp.byte[i] != s[k] || self.exp.style[i] != style {
                self.right = false;
            } else {
                self.seen += 1;
            }
            k += 1;
        }
    }
    pub fn complete(&self) -> bool {
        self.right && self.seen == self.exp.len
    }
}

impl<const N: usize> stylish::Write for Rec<N> {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        self.take(s.as_bytes(), St::of(style));
        Ok(())
    }
}

/// Unstyled text sink that compares what it is given with what is expected.
impl<const N: usize> core::fmt::Write for Rec<N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let mut k = 0;
        let s = s.as_bytes();
        while k < s.len() {
            let i = self.seen;
            if i >= self.exp.len || self.exp.byte[i] != s[k] {
                self.right = false;
            } else {
                self.seen += 1;
            }
            k += 1;
        }
        Ok(())
    }
}

/// A value whose every standard trait writes one fixed byte.
#[derive(Clone, Copy, Debug)]
pub struct P(pub u8);
impl core::fmt::Display for P {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(core::str::from_utf8(&[self.0]).unwrap())
    }
}

/// One style modification of any of the kinds the library offers, plus two user-defined ones that
/// are neither idempotent nor commutative.
#[derive(Clone, Copy, Debug)]
pub struct M {
    pub kind: u8,
    pub s: St,
    pub h: u8,
}

impl M {
    pub fn any() -> M {
        M { kind: nd::below(8), s: St::any(), h: nd::below(8) }
    }
    pub fn builtin() -> M {
        M { kind: nd::below(6), s: St::any(), h: nd::below(8) }
    }
    pub fn model(self, a: St) -> St {
        let s = self.s;
        if self.kind == 0 {
            St { f: s.f, b: a.b, i: a.i }
        } else if self.kind == 1 {
            St { f: a.f, b: s.b, i: a.i }
        } else if self.kind == 2 {
            St { f: a.f, b: a.b, i: s.i }
        } else if self.kind == 3 {
            s
        } else if self.kind == 4 {
            a
        } else if self.kind == 5 {
            St {
                f: if self.h & 1 != 0 { s.f } else { a.f },
                b: if self.h & 2 != 0 { s.b } else { a.b },
                i: if self.h & 4 != 0 { s.i } else { a.i },
            }
        } else if self.kind == 6 {
            St { f: if a.f >= 16 { 0 } else { a.f + 1 }, b: a.b, i: a.i }
        } else {
            St { f: a.b, b: a.f, i: a.i }
        }
    }
    pub fn diff(self) -> stylish::StyleDiff {
        let mut d = stylish::StyleDiff::default();
        if self.h & 1 != 0 {
            d.foreground = Some(color(self.s.f));
        }
        if self.h & 2 != 0 {
            d.background = Some(color(self.s.b));
        }
        if self.h & 4 != 0 {
            d.intensity = Some(intensity(self.s.i));
        }
        d
    }
}

impl stylish::Restyle for M {
    fn apply(&self, style: Style) -> Style {
        let s = self.s;
        match self.kind {
            0 => stylish::Foreground(color(s.f)).apply(style),
            1 => stylish::Background(color(s.b)).apply(style),
            2 => intensity(s.i).apply(style),
            3 => s.style().apply(style),
            4 => ().apply(style),
            5 => self.diff().apply(style),
            _ => self.model(St::of(style)).style(),
        }
    }
}

/// Order-sensitive fingerprint of a byte stream.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Print {
    pub len: u16,
    pub h: u64,
}
impl Print {
    pub const fn new() -> Print {
        Print { len: 0, h: 0 }
    }
    pub const fn byte(self, c: u8) -> Print {
        Print { len: self.len.wrapping_add(1), h: (self.h.rotate_left(9) ^ (c as u64)).wrapping_add(self.h << 3) }
    }
    pub const fn of(s: &[u8]) -> Print {
        let mut p = Print::new();
        let mut i = 0;
        while i < s.len() {
            p = p.byte(s[i]);
            i += 1;
        }
        p
    }
}

const FG: [u64; 16] = [
        Print::of(b"color:black").h, Print::of(b"color:red").h, Print::of(b"color:green").h, Print::of(b"color:yellow").h,
        Print::of(b"color:blue").h, Print::of(b"color:magenta").h, Print::of(b"color:cyan").h, Print::of(b"color:white").h,
        Print::of(b"color:gray").h, Print::of(b"color:#af0000").h, Print::of(b"color:#00ff00").h, Print::of(b"color:#ffff00").h,
        Print::of(b"color:#0000ff").h, Print::of(b"color:#ff00ff").h, Print::of(b"color:#00ffff").h, Print::of(b"color:#ffffff").h,
];
const BG: [u64; 16] = [
        Print::of(b"background-color:black").h, Print::of(b"background-color:red").h, Print::of(b"background-color:green").h,
        Print::of(b"background-color:yellow").h, Print::of(b"background-color:blue").h, Print::of(b"background-color:magenta").h,
        Print::of(b"background-color:cyan").h, Print::of(b"background-color:white").h, Print::of(b"background-color:gray").h,
        Print::of(b"background-color:#af0000").h, Print::of(b"background-color:#00ff00").h, Print::of(b"background-color:#ffff00").h,
        Print::of(b"background-color:#0000ff").h, Print::of(b"background-color:#ff00ff").h, Print::of(b"background-color:#00ffff").h,
        Print::of(b"background-color:#ffffff").h,
];
const BOLDER: u64 = Print::of(b"font-weight:bolder").h;
const LIGHTER: u64 = Print::of(b"font-weight:lighter").h;
const OPEN: u64 = Print::of(b"span style").h;
const CLOSE: u64 = Print::of(b"/span").h;

/// HTML reader for the markup adaptor: a byte-at-a-time tokenizer that decodes references, applies
/// the declarations of the enclosing element and compares with what is expected. Names are compared
/// by fingerprint.
#[derive(Clone, Copy, Debug)]
pub struct Page<const N: usize> {
    pub exp: Expect<N>,
    pub shown: usize,
    /// every byte had the expected value
    pub text_right: bool,
    /// every byte had the expected style
    pub style_right: bool,
    /// only flat balanced elements with known, non-repeated declarations, and known references
    pub wellformed: bool,
    /// elements opened so far
    pub opened: u16,
    /// within an element
    pub inside: bool,
    now: St,
    phase: u8,
    h: Print,
}

impl<const N: usize> Page<N> {
    pub fn new(exp: Expect<N>) -> Self {
        Page {
            exp, shown: 0, text_right: true, style_right: true, wellformed: true, opened: 0,
            inside: false, now: DEF, phase: 0, h: Print::new(),
        }
    }
    pub fn closed(&self) -> bool {
        self.phase == 0 && !self.inside
    }
    fn text(&mut self, c: u8) {
        let i = self.shown;
        if i >= self.exp.len {
            self.text_right = false;
        } else {
            if self.exp.byte[i] != c {
                self.text_right = false;
            }
            if self.exp.style[i] != self.now {
                self.style_right = false;
            }
            self.shown += 1;
        }
    }
    fn declaration(&mut self) {
        let h = self.h.h;
        let before = self.now;
        let mut known = false;
        let mut try_one = |k: u8| {
            if h == FG[k as usize] && before.f == 16 { self.now.f = k; known = true; }
            if h == BG[k as usize] && before.b == 16 { self.now.b = k; known = true; }
        };
        try_one(0); try_one(1); try_one(2); try_one(3); try_one(4); try_one(5); try_one(6); try_one(7);
        try_one(8); try_one(9); try_one(10); try_one(11); try_one(12); try_one(13); try_one(14); try_one(15);
        if h == BOLDER && before.i == 0 { self.now.i = 1; known = true; }
        if h == LIGHTER && before.i == 0 { self.now.i = 2; known = true; }
        if !known {
            self.wellformed = false;
        }
        self.h = Print::new();
    }
    pub fn byte(&mut self, c: u8) {
        if self.phase == 0 {
            if c == b'<' {
                self.phase = 1;
                self.h = Print::new();
            } else if c == b'&' {
                self.phase = 3;
                self.h = Print::new();
            } else if c == b'>' || c == b'"' || c == b'\'' {
                self.wellformed = false;
            } else {
                self.text(c);
            }
        } else if self.phase == 1 {
            if c == b'=' && self.h.h == OPEN && !self.inside {
                self.phase = 2;
                self.now = DEF;
                self.h = Print::new();
            } else if c == b'>' && self.h.h == CLOSE && self.inside {
                self.phase = 0;
                self.inside = false;
                self.now = DEF;
            } else if c == b'>' || c == b'=' || c == b'<' {
                self.wellformed = false;
            } else {
                self.h = self.h.byte(c);
            }
        } else if self.phase == 2 {
            if c == b';' {
                self.declaration();
            } else if c == b'>' {
                self.declaration();
                self.phase = 0;
                self.inside = true;
                self.opened += 1;
            } else {
                self.h = self.h.byte(c);
            }
        } else if c == b';' {
            let h = self.h.h;
            if h == R_LT {
                self.text(b'<');
            } else if h == R_GT {
                self.text(b'>');
            } else if h == R_AMP {
                self.text(b'&');
            } else if h == R_QUOT || h == R_N34 || h == R_NX22 {
                self.text(b'"');
            } else if h == R_APOS || h == R_N39 || h == R_NX27 {
                self.text(b'\'');
            } else {
                self.wellformed = false;
            }
            self.phase = 0;
        } else {
            self.h = self.h.byte(c);
        }
    }
}

impl<const N: usize> core::fmt::Write for Page<N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        each!(s.as_bytes(), c, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24] => self.byte(c));
        Ok(())
    }
}

const R_LT: u64 = Print::of(b"lt").h;
const R_GT: u64 = Print::of(b"gt").h;
const R_AMP: u64 = Print::of(b"amp").h;
const R_QUOT: u64 = Print::of(b"quot").h;
const R_N34: u64 = Print::of(b"#34").h;
const R_NX22: u64 = Print::of(b"#x22").h;
const R_APOS: u64 = Print::of(b"apos").h;
const R_N39: u64 = Print::of(b"#39").h;
const R_NX27: u64 = Print::of(b"#x27").h;

/// Every foreground; every background; every intensity with two colours.
pub fn foregrounds() -> St { St { f: nd::below(17), ..DEF } }
pub fn backgrounds() -> St { St { b: nd::below(17), ..DEF } }
pub fn few_styles() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(3) } }

/// A history of `K` styled writes.
pub struct Hist<const K: usize> { pub text: [[u8; 4]; K], pub len: [usize; K], pub style: [St; K] }
impl<const K: usize> Hist<K> {
    /// Each write is empty, one ASCII character, or an ASCII character after a two-byte one.
    pub fn any(pick: fn() -> St) -> Self { Self::of(3, pick) }
    /// The first `kinds` of these: empty, one ASCII character, an ASCII character after a two-byte one,
    /// two ASCII characters, a three-byte character, a four-byte one.
    pub fn of(kinds: u8, pick: fn() -> St) -> Self {
        let mut h = Hist { text: [[0; 4]; K], len: [0; K], style: [DEF; K] };
        let mut k = 0;
        while k < K {
            h.style[k] = pick();
            match nd::below(kinds) {
                1 => {
                    h.text[k][0] = nd::plain_byte();
                    h.len[k] = 1;
                }
                2 => {
                    let (hi, lo) = (nd::u8(), nd::u8());
                    nd::assume(hi >= 0xc2 && hi <= 0xdf && lo >= 0x80 && lo <= 0xbf);
                    h.text[k] = [hi, lo, nd::plain_byte(), 0];
                    h.len[k] = 3;
                }
                3 => {
                    h.text[k] = [nd::plain_byte(), nd::plain_byte(), 0, 0];
                    h.len[k] = 2;
                }
                4 => {
                    // U+0800 to U+FFFF but for surrogates
                    let (a, b, c) = (nd::u8(), nd::u8(), nd::u8());
                    nd::assume(a >= 0xe0 && a <= 0xef && b >= 0x80 && b <= 0xbf && c >= 0x80 && c <= 0xbf);
                    nd::assume(((a != 0xe0) | (b >= 0xa0)) & ((a != 0xed) | (b <= 0x9f)));
                    h.text[k] = [a, b, c, 0];
                    h.len[k] = 3;
                }
                5 => {
                    // U+10000 to U+10FFFF
                    let (a, b, c, d) = (nd::u8(), nd::u8(), nd::u8(), nd::u8());
                    nd::assume(a >= 0xf0 && a <= 0xf4 && b >= 0x80 && b <= 0xbf && c >= 0x80 && c <= 0xbf && d >= 0x80 && d <= 0xbf);
                    nd::assume(((a != 0xf0) | (b >= 0x90)) & ((a != 0xf4) | (b <= 0x8f)));
                    h.text[k] = [a, b, c, d];
                    h.len[k] = 4;
                }
                _ => (),
            }
            k += 1;
        }
        h
    }
    /// One letter in each write.
    pub fn letters(pick: fn() -> St) -> Self {
        let mut h = Hist { text: [[0; 4]; K], len: [1; K], style: [DEF; K] };
        let mut k = 0;
        while k < K {
            let c = nd::u8();
            nd::assume(c >= b'a' && c <= b'z');
            h.text[k][0] = c;
            h.style[k] = pick();
            k += 1;
        }
        h
    }
    /// Many writes of one letter in `every` equal styles in a row, but for one arbitrary write at `at`.
    pub fn long(every: usize, at: usize) -> Self {
        let mut h = Hist { text: [[0; 4]; K], len: [1; K], style: [DEF; K] };
        let mut k = 0;
        while k < K {
            h.text[k][0] = b'a' + (k % 26) as u8;
            h.style[k] = [St { f: 12, ..DEF }, St { f: 12, b: 1, i: 1 }, DEF, St { i: 2, ..DEF }][k / every % 4];
            k += 1;
        }
        let one = Hist::<1>::of(4, few_styles);
        h.text[at] = one.text[0];
        h.len[at] = one.len[0];
        h.style[at] = one.style[0];
        h
    }
    /// A long history of any of a few rhythms, the arbitrary write at any of some places.
    pub fn longs() -> Self {
        let at = [0, 1, 2, K / 2, K - 45, K - 4, K - 3, K - 2, K - 1][nd::concrete(nd::below(9)) as usize];
        Self::long([1, 2, 7][nd::concrete(nd::below(3)) as usize], at)
    }
    pub fn expect<const N: usize>(&self) -> Expect<N> {
        let mut e = Expect::<N>::new();
        let mut k = 0;
        while k < K {
            let mut l = 0;
            while l < self.len[k] {
                e.push(self.text[k][l], self.style[k]);
                l += 1;
            }
            k += 1;
        }
        e
    }
    /// The same writes, each through the operation told: 0 and up `write_str`, `write_char` for each
    /// character, a formatted write, by a reference, by a dynamic reference, by a sub-formatter as well.
    pub fn put_by(&self, by: &[u8; K], w: &mut impl stylish::Write) {
        let mut k = 0;
        while k < K {
            let s = unsafe { core::str::from_utf8_unchecked(&self.text[k][..self.len[k]]) };
            put_by(by[k], w, s, self.style[k]);
            k += 1;
        }
    }
    pub fn put(&self, w: &mut impl stylish::Write) {
        let mut k = 0;
        while k < K {
            let s = unsafe { core::str::from_utf8_unchecked(&self.text[k][..self.len[k]]) };
            assert!(stylish::Write::write_str(w, s, self.style[k].style()).is_ok(), "write succeeds");
            k += 1;
        }
    }
}

/// Text that displays itself in its own style, whole or a character at a time.
pub struct Styled<'a>(pub &'a str, pub St, pub bool);
impl stylish::Display for Styled<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        if self.2 {
            let mut g = f.with(self.1.style());
            for c in self.0.chars() {
                core::fmt::Write::write_char(&mut g, c)?;
            }
            Ok(())
        } else {
            f.with(self.1.style()).write_str(self.0)
        }
    }
}
pub const OPS: u8 = 6;
pub fn ops<const K: usize>() -> [u8; K] {
    let mut o = [0; K];
    let mut k = 0;
    while k < K {
        o[k] = nd::concrete(nd::below(OPS));
        k += 1;
    }
    o
}
fn through(w: &mut impl stylish::Write, s: &str, st: stylish::Style) -> stylish::Result {
    stylish::Write::write_str(w, s, st)
}
pub fn put_by(by: u8, w: &mut impl stylish::Write, s: &str, style: St) {
    assert!(give_by(by, w, s, style).is_ok(), "write succeeds");
}
pub fn give_by(by: u8, mut w: &mut impl stylish::Write, s: &str, style: St) -> stylish::Result {
    let st = style.style();
    match by {
        1 => s.chars().try_for_each(|c| stylish::Write::write_char(w, c, st)),
        #[cfg(any(feature = "has-macros", not(feature = "no-box")))]
        2 => stylish::write!(w, "{:s}", Styled(s, style, false)),
        3 => through(&mut w, s, st),
        4 => {
            let d: &mut dyn stylish::Write = w;
            d.write_str(s, st)
        }
        #[cfg(any(feature = "has-macros", not(feature = "no-box")))]
        5 => stylish::write!(w, "{:s}", Styled(s, style, true)),
        _ => stylish::Write::write_str(w, s, st),
    }
}

/// Every sort of error there is but for interruptions.
#[cfg(any(feature = "c15", feature = "c16", feature = "has-std"))]
pub fn error_kind() -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
        StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy,
        ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ][nd::concrete(nd::below(36)) as usize]
}
