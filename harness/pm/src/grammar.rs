//! The grammar of format strings, written from the documentation, and ways to make strings.
use super::nd;

pub const MAX: usize = 64;

/// What a placeholder asks for. Numbers: 0 is "absent" for enumerations, `None` for counts.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Spec {
    pub arg: Ref,
    pub align: u8,
    pub sign: u8,
    pub alternate: bool,
    pub zero: bool,
    pub width: Option<usize>,
    pub precision: Option<usize>,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    pub intensity: Option<u8>,
    pub hex: u8,
    pub select: u8,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ref { Next, At(usize), Name(usize, usize) }
/// One byte of literal text, or a placeholder.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Item { Text(u8), Arg(Spec) }
#[derive(Clone, Copy, Debug)]
pub struct Items { pub item: [Item; MAX], pub len: usize }
impl Items {
    pub fn new() -> Items { Items { item: [Item::Text(0); MAX], len: 0 } }
    pub fn push(&mut self, i: Item) {
        self.item[self.len] = i;
        self.len += 1;
    }
}

// The reference ----------------------------------------------------------------------------------

pub enum No { Rejected, Unsupported }

pub struct Cursor<'a> { s: &'a [u8], at: usize, too_big: bool }
pub const NAMES: [&[u8]; 17] = [
    b"black", b"red", b"green", b"yellow", b"blue", b"magenta", b"cyan", b"white", b"brightblack", b"brightred",
    b"brightgreen", b"brightyellow", b"brightblue", b"brightmagenta", b"brightcyan", b"brightwhite", b"default",
];
/// The multi-byte characters used: may start a name (s), only continue one (c), white space, or neither.
pub const WIDE: [(&[u8], u8); 10] = [
    ("\u{e9}".as_bytes(), b's'), ("\u{3b2}".as_bytes(), b's'), ("\u{4e2d}".as_bytes(), b's'), ("\u{1d4d0}".as_bytes(), b's'),
    ("\u{b7}".as_bytes(), b'c'), ("\u{663}".as_bytes(), b'c'), ("\u{a0}".as_bytes(), b' '), ("\u{2003}".as_bytes(), b' '),
    ("\u{20ac}".as_bytes(), b'x'), ("\u{1f600}".as_bytes(), b'x'),
];
impl Cursor<'_> {
    pub fn peek(&self, k: usize) -> u8 {
        if self.at + k < self.s.len() { self.s[self.at + k] } else { 0xff }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let hit = self.peek(0) == c;
        if hit { self.at += 1; }
        hit
    }
    pub fn word(&mut self, w: &[u8]) -> bool {
        let mut i = 0;
        while i < w.len() {
            if self.peek(i) != w[i] { return false; }
            i += 1;
        }
        self.at += w.len();
        true
    }
    pub fn number(&mut self) -> Option<usize> {
        let mut n = 0usize;
        let start = self.at;
        while self.peek(0) >= b'0' && self.peek(0) <= b'9' {
            let d = (self.peek(0) - b'0') as usize;
            if n > usize::MAX / 10 || (n == usize::MAX / 10 && d > 5) { self.too_big = true; }
            n = n.wrapping_mul(10).wrapping_add(d);
            self.at += 1;
        }
        if self.at > start { Some(n) } else { None }
    }
    /// Length and class of the character here: (length, may start a name, may continue one, white space).
    pub fn class(&self) -> (usize, bool, bool, bool) {
        let c = self.peek(0);
        if self.at >= self.s.len() { return (0, false, false, false); }
        if c < 128 {
            let start = Self::letter(c) || c == b'_';
            return (1, start, start || (c >= b'0' && c <= b'9'), c == b' ' || (c >= 9 && c <= 13));
        }
        let mut k = 0;
        while k < WIDE.len() {
            let mut i = 0;
            while i < WIDE[k].0.len() && self.peek(i) == WIDE[k].0[i] { i += 1; }
            if i == WIDE[k].0.len() { return (i, WIDE[k].1 == b's', WIDE[k].1 == b's' || WIDE[k].1 == b'c', WIDE[k].1 == b' '); }
            k += 1;
        }
        unreachable!()
    }
    pub fn letter(c: u8) -> bool { (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') }
    pub fn name(&mut self) -> Option<(usize, usize)> {
        let start = self.at;
        if !self.class().1 { return None; }
        while self.class().2 {
            self.at += self.class().0;
        }
        Some((start, self.at - start))
    }
    pub fn color(&mut self) -> Result<u8, No> {
        let mut k = 0;
        while k < 17 {
            if self.word(NAMES[k]) { return Ok(k as u8); }
            k += 1;
        }
        Err(No::Rejected)
    }
    pub fn attributes(&mut self, p: &mut Spec) -> Result<(), No> {
        if self.eat(b')') { return Ok(()); }
        loop {
            if self.word(b"fg=") {
                p.fg = Some(self.color()?);
            } else if self.word(b"bg=") {
                p.bg = Some(self.color()?);
            } else if self.word(b"normal") {
                p.intensity = Some(0);
            } else if self.word(b"bold") {
                p.intensity = Some(1);
            } else if self.word(b"faint") {
                p.intensity = Some(2);
            } else {
                return Err(No::Rejected);
            }
            if self.eat(b')') { return Ok(()); }
            if !self.eat(b',') { return Err(No::Rejected); }
            if self.eat(b')') { return Ok(()); }
        }
    }
    pub fn is_align(c: u8) -> bool { c == b'<' || c == b'^' || c == b'>' }
    pub fn spec(&mut self, p: &mut Spec) -> Result<(), No> {
        if self.at < self.s.len() && Self::is_align(self.peek(self.class().0)) {
            if self.peek(0) != b' ' { return Err(No::Unsupported); }
            self.at += 1;
        }
        if Self::is_align(self.peek(0)) {
            p.align = if self.peek(0) == b'<' { 1 } else if self.peek(0) == b'^' { 2 } else { 3 };
            self.at += 1;
        }
        if self.eat(b'+') { p.sign = 1; } else if self.eat(b'-') { p.sign = 2; }
        p.alternate = self.eat(b'#');
        p.zero = self.eat(b'0');
        p.width = self.number();
        if self.eat(b'.') {
            match self.number() {
                Some(n) => p.precision = Some(n),
                None => return Err(No::Rejected),
            }
        }
        if self.eat(b'(') { self.attributes(p)?; }
        if self.eat(b'?') {
            p.select = 1;
        } else if self.word(b"x?") {
            p.select = 1;
            p.hex = 1;
        } else if self.word(b"X?") {
            p.select = 1;
            p.hex = 2;
        } else if self.eat(b'o') { p.select = 2; }
        else if self.eat(b'x') { p.select = 3; }
        else if self.eat(b'X') { p.select = 4; }
        else if self.eat(b'p') { p.select = 5; }
        else if self.eat(b'b') { p.select = 6; }
        else if self.eat(b'e') { p.select = 7; }
        else if self.eat(b'E') { p.select = 8; }
        else if self.eat(b's') { p.select = 9; }
        Ok(())
    }
}
pub const NO_SPEC: Spec = Spec {
    arg: Ref::Next, align: 0, sign: 0, alternate: false, zero: false, width: None, precision: None,
    fg: None, bg: None, intensity: None, hex: 0, select: 0,
};
pub fn reference(s: &[u8]) -> Result<Items, No> {
    let mut out = Items::new();
    let mut c = Cursor { s, at: 0, too_big: false };
    let mut lone = false;
    while c.at < s.len() {
        if c.eat(b'{') {
            if c.eat(b'{') {
                out.push(Item::Text(b'{'));
                continue;
            }
            let mut p = NO_SPEC;
            if let Some(n) = c.number() {
                p.arg = Ref::At(n);
            } else if let Some((at, len)) = c.name() {
                lone |= len == 1 && s[at] == b'_';
                p.arg = Ref::Name(at, len);
            }
            if c.eat(b':') { c.spec(&mut p)?; }
            while c.class().3 { c.at += c.class().0; }
            if !c.eat(b'}') { return Err(No::Rejected); }
            out.push(Item::Arg(p));
        } else if c.eat(b'}') {
            if !c.eat(b'}') { return Err(No::Rejected); }
            out.push(Item::Text(b'}'));
        } else {
            out.push(Item::Text(s[c.at]));
            c.at += 1;
        }
    }
    if lone || c.too_big { Err(No::Rejected) } else { Ok(out) }
}

// Inputs -----------------------------------------------------------------------------------------

pub struct Text { pub b: [u8; 64], pub n: usize }
impl Text {
    pub fn new() -> Text { Text { b: [0; 64], n: 0 } }
    pub fn byte(&mut self, c: u8) -> &mut Self {
        self.b[self.n] = c;
        self.n += 1;
        self
    }
    pub fn str(&mut self, s: &[u8]) -> &mut Self {
        let mut i = 0;
        while i < s.len() {
            self.byte(s[i]);
            i += 1;
        }
        self
    }
    /// Between 0 and `n` arbitrary ASCII bytes.
    pub fn free(&mut self, n: u8) -> &mut Self {
        let mut k = nd::below(n + 1);
        while k > 0 {
            let c = nd::u8();
            nd::assume(c < 128);
            self.byte(c);
            k -= 1;
        }
        self
    }
    /// A multi-byte character, or nothing.
    pub fn wide(&mut self) -> &mut Self {
        let k = nd::below(11) as usize;
        let mut j = 0;
        while j < 10 {
            if k == j { self.str(WIDE[j].0); }
            j += 1;
        }
        self
    }
    pub fn digit(&mut self) -> &mut Self {
        let c = nd::u8();
        nd::assume(c >= b'0' && c <= b'9');
        self.byte(c)
    }
    pub fn bytes(&self) -> &[u8] { &self.b[..self.n] }
}
pub fn attribute(t: &mut Text) {
    match nd::below(5) {
        0 => { t.str(b"fg=").str(NAMES[nd::below(17) as usize]); }
        1 => { t.str(b"bg=").str(NAMES[nd::below(17) as usize]); }
        2 => { t.str(b"normal"); }
        3 => { t.str(b"bold"); }
        _ => { t.str(b"faint"); }
    }
}
/// A valid placeholder put together from symbolic choices.
pub fn placeholder(t: &mut Text, small: bool) {
    t.byte(b'{');
    match nd::below(3) {
        0 => (),
        1 => { t.digit(); }
        _ => { t.str(b"a_1"); }
    }
    t.byte(b':');
    if nd::bool() {
        if !small && nd::bool() { t.byte(b' '); }
        t.byte(b"<^>"[nd::below(3) as usize]);
    }
    match nd::below(3) {
        0 => (),
        1 => { t.byte(b'+'); }
        _ => { t.byte(b'-'); }
    }
    if nd::bool() { t.byte(b'#'); }
    if nd::bool() { t.byte(b'0'); }
    match nd::below(if small { 2 } else { 3 }) {
        0 => (),
        1 => { t.digit(); }
        _ => { t.digit().digit(); }
    }
    if nd::bool() { t.byte(b'.').digit(); }
    match nd::below(3) {
        0 => (),
        1 => { t.str(b"(bold)"); }
        _ => { t.str(b"(fg=red,)"); }
    }
    let w: [&[u8]; 12] = [b"", b"?", b"x?", b"X?", b"o", b"x", b"X", b"p", b"b", b"e", b"E", b"s"];
    t.str(w[nd::below(12) as usize]);
    t.byte(b'}');
}

