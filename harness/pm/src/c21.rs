//! The real macro implementation accepts exactly the argument lists that match the format string.
use super::nd;
use super::call;

/// A format string put together piece by piece, and what it asks of the argument list.
struct Asked {
    text: [u8; 32],
    len: usize,
    /// Placeholders that take the next positional argument.
    next: usize,
    /// Positional arguments referred to by number, by bit.
    numbered: u32,
    /// Names a, b, c, d referred to, by bit.
    named: u32,
}
/// An arbitrary value below `n`, one path for each (hash tables do not go well with symbolic keys).
fn pick(n: u8) -> u8 {
    nd::concrete(nd::below(n))
}
impl Asked {
    fn new() -> Asked { Asked { text: [0; 32], len: 0, next: 0, numbered: 0, named: 0 } }
    fn byte(&mut self, c: u8) {
        self.text[self.len] = c;
        self.len += 1;
    }
    /// A placeholder whose number or name stays symbolic all through the macro.
    fn symbolic(&mut self) {
        let name = pick(2) == 1;
        let d = nd::below(4);
        self.byte(b'{');
        self.byte(if name { b'a' } else { b'0' } + d);
        if name { self.named |= 1 << d; } else { self.numbered |= 1 << d; }
        self.byte(b'}');
    }
    fn piece(&mut self, literal: bool) {
        let kind = pick(if literal { 5 } else { 3 });
        if kind == 0 {
            self.byte(b'{');
            self.next += 1;
            self.byte(b'}');
        } else if kind == 1 {
            self.byte(b'{');
            let d = pick(4);
            self.byte(b'0' + d);
            self.numbered |= 1 << d;
            self.byte(b'}');
        } else if kind == 2 {
            self.byte(b'{');
            let d = pick(4);
            self.byte(b'a' + d);
            self.named |= 1 << d;
            self.byte(b'}');
        } else if kind == 3 {
            let c = nd::u8();
            nd::assume(c >= b'0' && c <= b'z' && c != b'\\');
            self.byte(c);
        } else {
            self.byte(b'{');
            self.byte(b'{');
        }
    }
}

/// Whether the list of `positional` positional arguments and the names in `named` does not match.
fn wrong(asked: &Asked, positional: usize, named: u32) -> bool {
    let mut used = asked.numbered;
    let mut i = 0;
    while i < asked.next {
        used |= 1 << i;
        i += 1;
    }
    // a name that was not supplied is a captured variable, one that was has to be used
    used != (1u32 << positional) - 1 || named & !asked.named != 0
}

fn invoke(asked: &Asked, positional: usize, named: u32) {
    let text = core::str::from_utf8(&asked.text[..asked.len]).unwrap();
    let mut tail = String::with_capacity(100);
    for i in 0..positional { tail.push_str([", p", ", q", ", r"][i]); }
    // the order in which names are given does not matter, so take them backwards
    for i in (0..4).rev() {
        if named & (1 << i) != 0 { tail.push_str([", a = v", ", b = v", ", c = v", ", d = v"][i]); }
    }
    nd::panics(wrong(asked, positional, named), move || call(text, &tail));
}

/// Argument lists as they are written: text, number of positional arguments (99: not well-formed), names given.
const LISTS: [(&str, usize, u32); 43] = [
    ("", 0, 0), (",", 0, 0), (", x", 1, 0), (", x,", 1, 0), (", x, y", 2, 0), (", x, y, z,", 3, 0),
    (", a = 1", 0, 1), (", a = 1,", 0, 1), (", b = x + 1", 0, 2), (", x, a = 1", 1, 1), (", a = 1, b = 2", 0, 3),
    (", x, y, a = 1, b = 2,", 2, 3), (", x == y", 1, 0), (", s.a = 1", 1, 0), (", f(a = 1)", 1, 0), (", (a = 1)", 1, 0),
    (", a = x = y", 0, 1), (", 1 + 2, -x", 2, 0), (", a = 1, x", 99, 0), (", a = 1, a = 2", 99, 0), (", x y", 99, 0),
    (", ,", 99, 0), (", a =", 99, 0), (", r#a = 1", 0, 1),
    (", a = 1, r#a = 2", 99, 0), (", r#a = 1, a = 2", 99, 0), (", r#a = 1, r#a = 2", 99, 0), (", r#a = 1, r#b = 2", 0, 3), (", b = 1, r#a = 2,", 0, 3),
    (", x, b = 1, c = 2, b = 3", 99, 0), (", a = 1, b = 2, c = 3, a = 4", 99, 0), (", a = a", 0, 1), (", x, x", 2, 0), (", a == 1, b = 2", 1, 2),
    (", a = 1, b == 2", 99, 0), (", a => 1", 99, 0), (", &a, b = &c", 1, 2), (", { a = 1 }", 1, 0), (", a::b", 1, 0), (", a += 1", 1, 0),
    (",, x", 99, 0), (", x; y", 99, 0), (", 'a", 99, 0),
];

fn written(asked: &Asked, list: usize) {
    let mut k = 0;
    while k < LISTS.len() {
        if k == list {
            let (tail, positional, named) = LISTS[k];
            let text = core::str::from_utf8(&asked.text[..asked.len]).unwrap();
            nd::panics(positional == 99 || wrong(asked, positional, named), move || call(text, tail));
        }
        k += 1;
    }
}

/// Many arguments, positional or named, one of them missing, unused or given twice, or none.
fn many(counts: &[usize]) {
    let n = counts[pick(counts.len() as u8) as usize];
    let style = pick(4);
    let fault = pick(4);
    let at = [0, n / 2, n - 1][pick(3) as usize];
    let mut text = String::with_capacity(2000);
    let mut tail = String::with_capacity(2000);
    let number = |t: &mut String, k: usize| {
        if k >= 100 { t.push((b'0' + (k / 100) as u8) as char); }
        if k >= 10 { t.push((b'0' + (k / 10 % 10) as u8) as char); }
        t.push((b'0' + (k % 10) as u8) as char);
    };
    for j in 0..n {
        // numbered references come backwards
        let k = if style == 1 { n - 1 - j } else { j };
        // a name that is not supplied is captured, so for names this is an argument that is not used
        if !(fault == 1 && k == at) {
            text.push('{');
            if style == 1 { number(&mut text, k); }
            if style >= 2 { text.push('n'); number(&mut text, k); }
            text.push('}');
        }
        let k = j;
        if !(fault == 2 && k == at) {
            tail.push_str(", ");
            if style >= 2 { tail.push('n'); number(&mut tail, k); tail.push_str(" = "); }
            tail.push('v');
        }
        if style == 3 && k + 1 == n { tail.push(','); }
    }
    if fault == 3 { tail.push_str(if style >= 2 { if style == 3 { " n0 = w" } else { ", n0 = w" } } else { ", w" }); }
    let wrong = match fault {
        0 => false,
        // without a placeholder less is the same as an argument less; a named one missing is captured
        2 => style < 2,
        _ => true,
    };
    nd::panics(wrong, move || call(&text, &tail));
}

harnesses! {
    fn q_many() { many(&[4, 8, 9, 11, 17, 33, 65, 129]) }
    fn t_many() { many(&[5, 6, 7, 10, 12, 16, 31, 32, 63, 64, 66, 127, 128, 130, 257]) }
    fn q_literals() {
        let mut a = Asked::new();
        for _ in 0..pick(3) { a.piece(true); }
        let p = pick(4) as usize;
        invoke(&a, p, 0);
    }
    fn q_symbolic() {
        let mut a = Asked::new();
        a.symbolic();
        let p = pick(4) as usize;
        let n = pick(3) as u32;
        invoke(&a, p, n);
    }
    fn t_symbolic() {
        let mut a = Asked::new();
        a.piece(false);
        a.symbolic();
        let p = pick(4) as usize;
        let n = pick(4) as u32;
        invoke(&a, p, n);
    }
    fn q_named() {
        let mut a = Asked::new();
        for _ in 0..pick(3) { a.piece(false); }
        let p = pick(3) as usize;
        let n = pick(16) as u32;
        invoke(&a, p, n);
    }
    fn q_three() {
        let mut a = Asked::new();
        for _ in 0..3 { a.piece(false); }
        let p = pick(4) as usize;
        let n = pick(4) as u32;
        invoke(&a, p, n);
    }
    fn q_written() {
        let mut a = Asked::new();
        for _ in 0..pick(3) { a.piece(false); }
        let k = pick(LISTS.len() as u8) as usize;
        written(&a, k);
    }
    fn t_four() {
        let mut a = Asked::new();
        for _ in 0..4 { a.piece(true); }
        let p = pick(4) as usize;
        let n = pick(8) as u32;
        invoke(&a, p, n);
    }
    fn t_written() {
        let mut a = Asked::new();
        for _ in 0..3 { a.piece(true); }
        let k = pick(LISTS.len() as u8) as usize;
        written(&a, k);
    }
}
