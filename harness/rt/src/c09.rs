use crate::{model::*, nd};
use stylish::{Display, Formatter, Write as _};

/// One write of symbolic kind and content to an attributed string.
#[derive(Clone, Copy)]
struct Op {
    kind: u8,
    style: St,
    buf: [u8; 4],
    len: usize,
}
fn op(pick: fn() -> St) -> Op {
    let style = pick();
    let kind = nd::below(5);
    let (mut buf, mut len) = ([0u8; 4], 0);
    if kind == 1 || kind == 3 || kind == 4 {
        buf[0] = nd::u8();
        nd::assume(buf[0] < 128);
        len = 1;
    } else if kind == 2 {
        // a two-byte character and an ASCII one
        let (hi, lo, c) = (nd::u8(), nd::u8(), nd::u8());
        nd::assume(hi >= 0xc2 && hi <= 0xdf && lo >= 0x80 && lo <= 0xbf && c < 128);
        buf = [hi, lo, c, 0];
        len = 3;
    }
    Op { kind, style, buf, len }
}
fn put(s: &mut stylish::String, o: &Op) {
    let t = unsafe { core::str::from_utf8_unchecked(&o.buf[..o.len]) };
    let r = match o.kind {
        3 => s.write_char(o.buf[0] as char, o.style.style()),
        4 => stylish::write!(s, "{:(fg=red,bold)}", t),
        _ => s.write_str(t, o.style.style()),
    };
    assert!(r.is_ok(), "writing to a string succeeds");
}
fn want<const N: usize>(e: &mut Expect<N>, o: &Op) {
    let style = if o.kind == 4 { St { f: 1, b: 16, i: 1 } } else { o.style };
    let mut i = 0;
    while i < o.len {
        e.push(o.buf[i], style);
        i += 1;
    }
}

struct Around<'a>(&'a stylish::String, St);
impl Display for Around<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let mut g = f.with(self.1.style());
        g.write_str("<")?;
        self.0.fmt(&mut g)?;
        g.write_str(">")
    }
}
fn shown<const N: usize>(s: &stylish::String, around: St, ops: &[Op], which: &[bool]) {
    let mut e = Expect::<N>::new();
    e.push(b'<', around);
    let mut i = 0;
    while i < ops.len() {
        if which[i] {
            want(&mut e, &ops[i]);
        }
        i += 1;
    }
    e.push(b'>', around);
    let mut w = Rec::new(e);
    assert!(stylish::write!(w, "{:s}", Around(s, around)).is_ok(), "showing succeeds");
    assert!(w.complete(), "every character in the style it was written with");
}

/// `K` writes to one string.
fn history<const K: usize, const N: usize>(pick: fn() -> St) {
    let mut ops = [Op { kind: 0, style: DEF, buf: [0; 4], len: 0 }; K];
    let mut s = stylish::String::new();
    let mut i = 0;
    while i < K {
        ops[i] = op(pick);
        put(&mut s, &ops[i]);
        i += 1;
    }
    shown::<N>(&s, St::few(), &ops, &[true; K]);
}

/// `K` writes; the string is cloned before one of them, later ones go to either copy.
fn cloned<const K: usize, const N: usize>(pick: fn() -> St) {
    let mut ops = [Op { kind: 0, style: DEF, buf: [0; 4], len: 0 }; K];
    let (mut in_a, mut in_b) = ([false; K], [false; K]);
    let mut a = stylish::String::new();
    let mut b = None;
    let at = nd::below(K as u8) as usize;
    let mut i = 0;
    while i < K {
        if i == at {
            b = Some(a.clone());
            in_b = in_a;
        }
        ops[i] = op(pick);
        let to_b = if i >= at { nd::bool() } else { false };
        if to_b {
            put(b.as_mut().unwrap(), &ops[i]);
            in_b[i] = true;
        } else {
            put(&mut a, &ops[i]);
            in_a[i] = true;
        }
        i += 1;
    }
    let around = St::few();
    shown::<N>(&a, around, &ops, &in_a);
    shown::<N>(b.as_ref().unwrap(), around, &ops, &in_b);
}
fn fewer() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(2) } }

/// A string shown into another string keeps its styles.
fn copied() {
    let (a, b, c) = (op(St::few), op(St::few), op(St::few));
    let mut s = stylish::String::new();
    put(&mut s, &a);
    put(&mut s, &b);
    let mut t = stylish::String::new();
    put(&mut t, &c);
    assert!(stylish::write!(t, "{:s}", s).is_ok(), "copying succeeds");
    shown::<11>(&t, DEF, &[c, a, b], &[true; 3]);
}

/// Sink that wants one run of `x` in one style before what `rec` wants.
struct After<const N: usize> {
    left: usize,
    style: St,
    right: bool,
    rec: Rec<N>,
}
impl<const N: usize> stylish::Write for After<N> {
    fn write_str(&mut self, s: &str, style: stylish::Style) -> stylish::Result {
        let b = s.as_bytes();
        let n = if self.left < b.len() { self.left } else { b.len() };
        let mut i = 0;
        while i < n {
            self.right &= b[i] == b'x';
            i += 1;
        }
        if n > 0 {
            self.right &= St::of(style) == self.style;
            self.left -= n;
        }
        if n < b.len() {
            self.rec.take(&b[n..], St::of(style));
        }
        Ok(())
    }
}

/// A long run, then `K` arbitrary writes.
fn after<const K: usize, const N: usize>(run: &str, style: St, pick: fn() -> St) {
    let mut s = stylish::String::new();
    assert!(s.write_str(run, style.style()).is_ok(), "writing to a string succeeds");
    let mut e = Expect::<N>::new();
    let mut i = 0;
    while i < K {
        let o = op(pick);
        put(&mut s, &o);
        want(&mut e, &o);
        i += 1;
    }
    let mut w = After { left: run.len(), style, right: true, rec: Rec::new(e) };
    assert!(stylish::write!(w, "{:s}", s).is_ok(), "showing succeeds");
    assert!(w.right && w.left == 0, "the long run in the style it was written with");
    assert!(w.rec.complete(), "every character in the style it was written with");
}
static LONG: [u8; 65537] = [b'x'; 65537];
fn run(n: usize) -> &'static str { unsafe { core::str::from_utf8_unchecked(&LONG[..n]) } }

/// Many runs, one of them and its place arbitrary, written singly and shown into another string.
fn runs<const R: usize>() {
    let style = |i: usize| St { f: (i % 16) as u8, b: 16, i: (i / 16 % 3) as u8 };
    let at = nd::u8();
    nd::assume((at as usize) < R);
    let at = nd::concrete(at) as usize;
    let o = St { f: nd::below(3), b: 16, i: nd::below(2) };
    let (mut s, mut e) = (stylish::String::new(), Expect::<R>::new());
    let mut i = 0;
    while i < R {
        let st = if i == at { o } else { style(i) };
        let c = b'a' + (i % 26) as u8;
        assert!(s.write_char(c as char, st.style()).is_ok(), "writing to a string succeeds");
        e.push(c, st);
        i += 1;
    }
    let mut t = stylish::String::new();
    assert!(stylish::write!(t, "{:s}", s).is_ok(), "copying succeeds");
    let mut w = Rec::new(e);
    assert!(stylish::write!(w, "{:s}", t).is_ok(), "showing succeeds");
    assert!(w.complete(), "every character in the style it was written with");
}

harnesses! {
    [8] fn q_long() {
        let n = [1, 15, 16, 127, 128, 255, 256, 257][nd::concrete(nd::below(8)) as usize];
        after::<2, 6>(run(n), St { f: 16, b: 16, i: nd::below(2) }, fewer)
    }
    [8] fn q_huge() {
        let n = [32767, 32768, 65535, 65536, 65537][nd::concrete(nd::below(5)) as usize];
        after::<1, 3>(run(n), St { f: 16, b: 16, i: 1 }, || St { f: 16, b: 16, i: nd::below(2) })
    }
    [8] fn q_runs() { runs::<256>() }
    [8] fn t_huge() {
        let n = [32767, 32768, 65535, 65536, 65537][nd::concrete(nd::below(5)) as usize];
        after::<2, 6>(run(n), St { f: 16, b: 16, i: 1 }, || St { f: 16, b: 16, i: nd::below(2) })
    }
    [8] fn q_two() { history::<2, 8>(St::few) }
    [8] fn t_two() { history::<2, 8>(St::any) }
    [8] fn q_three() { history::<3, 11>(fewer) }
    [8] fn q_cloned() { cloned::<3, 11>(fewer) }
    [8] fn q_copied() { copied() }
    [8] fn t_three() { history::<3, 11>(St::few) }
    [8] fn t_four() { history::<4, 14>(fewer) }
    [8] fn t_cloned() { cloned::<4, 14>(fewer) }
}
