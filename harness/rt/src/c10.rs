use crate::{model::*, nd};
use stylish::{Display, Formatter, Write as _};

struct Flat(M, M, M);
impl Display for Flat {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.write_str("a")?;
        f.with(self.0).write_str("b")?;
        f.write_str("c")?;
        {
            let mut g = f.with(self.1);
            g.write_str("d")?;
            g.with(self.2).write_str("e")?;
            g.write_str("f")?;
        }
        f.write_str("g")
    }
}
/// What `Flat` shows inside style `s`.
fn flat<const N: usize>(e: &mut Expect<N>, v: &Flat, s: St) {
    let g = v.1.model(s);
    e.push(b'a', s);
    e.push(b'b', v.0.model(s));
    e.push(b'c', s);
    e.push(b'd', g);
    e.push(b'e', v.2.model(g));
    e.push(b'f', g);
    e.push(b'g', s);
}

struct Outer(M, M);
struct Inner(M);
impl Display for Inner {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.with(self.0).write_str("i")?;
        f.write_str("j")
    }
}
impl Display for Outer {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.write_str("x")?;
        f.with(self.0).write_fmt(stylish::format_args!("l{:s}m{:(bold)s}n", Inner(self.1), Inner(self.1)))?;
        f.write_str("y")?;
        stylish::write!(f, "{:(bg=red)s}", Inner(self.1))?;
        core::fmt::Write::write_str(f, "z")
    }
}
fn inner<const N: usize>(e: &mut Expect<N>, m: M, s: St) {
    e.push(b'i', m.model(s));
    e.push(b'j', s);
}

/// Values whose pieces come through nested placeholders with their own flags.
struct Flags(M, M, u8);
impl Display for Flags {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let i = Inner(self.1);
        let mut g = f.with(self.0);
        match self.2 {
            0 => g.write_fmt(stylish::format_args!("l{:s}", i))?,
            1 => g.write_fmt(stylish::format_args!("l{:4s}", i))?,
            2 => g.write_fmt(stylish::format_args!("l{:>+#04.2s}", i))?,
            _ => g.write_fmt(stylish::format_args!("l{:.1(fg=green)s}", i))?,
        }
        i.fmt(&mut g)?;
        f.write_str("k")
    }
}
fn flags<const N: usize>(e: &mut Expect<N>, v: &Flags, s: St) {
    let g = v.0.model(s);
    e.push(b'l', g);
    inner(e, v.1, if v.2 == 3 { St { f: 2, ..g } } else { g });
    inner(e, v.1, g);
    e.push(b'k', s);
}
macro_rules! specs {
    ($w:ident, $v:ident, $e:ident, $show:ident, $k:expr, $($n:literal $spec:literal $st:expr,)*) => {
        match $k {
            $($n => {
                $e.push(b'<', DEF);
                $show(&mut $e, &$v, $st);
                $e.push(b'>', DEF);
                let mut w = Rec::new($e);
                assert!(stylish::write!(w, concat!("<{:", $spec, "s}>"), $v).is_ok(), "succeeds");
                w
            })*
            _ => Rec::new($e),
        }
    };
}
/// Flags are the value's business: they take no part in the style.
macro_rules! under_flags {
    ($v:expr, $show:ident, $n:literal) => {{
        let v = $v;
        let mut e = Expect::<$n>::new();
        let k = nd::concrete(nd::below(20));
        let w = specs!(w, v, e, $show, k,
            0 "" DEF, 1 "4" DEF, 2 "12" DEF, 3 ">" DEF, 4 "<4" DEF, 5 "^9" DEF, 6 "+" DEF, 7 "-" DEF, 8 "#" DEF, 9 "0" DEF,
            10 "03" DEF, 11 ".0" DEF, 12 ".2" DEF, 13 ">+#09.4" DEF, 14 "65535" DEF, 15 "#6" DEF,
            16 "4(fg=blue)" St { f: 4, ..DEF }, 17 "+(bg=red,bold)" St { f: 16, b: 1, i: 1 }, 18 "#.1(faint)" St { i: 2, ..DEF },
            19 ">+#09.4(fg=brightwhite,bg=black,bold)" St { f: 15, b: 0, i: 1 },
        );
        assert!(w.complete(), "every piece in its formatter's style");
    }};
}

/// Sub-formatters within each other, `K` deep, text before and after each.
fn sink_in(f: &mut Formatter<'_>, m: &[M], k: u8) -> stylish::Result {
    f.write_str(unsafe { core::str::from_utf8_unchecked(&[b'a' + k]) })?;
    if let [first, rest @ ..] = m {
        sink_in(&mut f.with(*first), rest, k + 1)?;
    }
    f.write_str(unsafe { core::str::from_utf8_unchecked(&[b'A' + k]) })
}
struct Deep<const K: usize>([M; K]);
impl<const K: usize> Display for Deep<K> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { sink_in(f, &self.0, 0) }
}
/// Displayed values and format strings within each other, `K` deep.
struct Doll<'a>(&'a [M], u8);
impl Display for Doll<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let k = self.1;
        let (a, b) = ([b'a' + k], [b'A' + k]);
        let (a, b) = unsafe { (core::str::from_utf8_unchecked(&a), core::str::from_utf8_unchecked(&b)) };
        f.write_str(a)?;
        if let [first, rest @ ..] = self.0 {
            if k % 2 == 0 {
                f.with(*first).write_fmt(stylish::format_args!("{:s}", Doll(rest, k + 1)))?;
            } else {
                stylish::write!(f.with(*first), "{:3s}", Doll(rest, k + 1))?;
            }
        }
        f.write_str(b)
    }
}
fn deep<const K: usize, const N: usize>(show: fn(&mut Rec<N>, [M; K]) -> stylish::Result) {
    // step the foreground, swap the colours, set a component to a value told by the depth
    let m: [M; K] = core::array::from_fn(|k| {
        let pick = nd::concrete(nd::below(3)) as usize;
        M { kind: [6, 7, [0, 1, 2, 3, 5][k % 5]][pick], s: St { f: k as u8, b: 15 - k as u8, i: (k % 3) as u8 }, h: 1 + (k % 7) as u8 }
    });
    let mut s = [DEF; 16];
    let mut k = 0;
    while k < K {
        s[k + 1] = m[k].model(s[k]);
        k += 1;
    }
    let mut e = Expect::<N>::new();
    for k in 0..=K { e.push(b'a' + k as u8, s[k]); }
    for k in (0..=K).rev() { e.push(b'A' + k as u8, s[k]); }
    let mut w = Rec::new(e);
    assert!(show(&mut w, m).is_ok(), "succeeds");
    assert!(w.complete(), "every piece in its formatter's style");
}

/// Text that reaches a formatter by every operation there is, of both traits and its own.
struct Text_<'a>(&'a str);
impl Display for Text_<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { f.write_str(self.0) }
}
struct Ways(M, M, [u8; 3], char);
const WAYS: u8 = 8;
fn put_way(f: &mut Formatter<'_>, way: u8, c: char) -> stylish::Result {
    let mut b = [0; 4];
    let s: &str = c.encode_utf8(&mut b);
    match way {
        0 => f.write_str(s),
        1 => core::fmt::Write::write_char(f, c),
        2 => core::fmt::Write::write_str(&mut &mut *f, s),
        3 => core::fmt::Write::write_fmt(f, core::format_args!("{}{}", "<", c)),
        4 => stylish::Write::write_fmt(f, stylish::format_args!("<{}", s)),
        5 => f.write_fmt(stylish::format_args!("{:(fg=green)}{}", "<", c)),
        6 => Text_(s).fmt(f),
        _ => {
            let d: &mut dyn core::fmt::Write = f;
            d.write_char(c)
        }
    }
}
impl Display for Ways {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        put_way(f, self.2[0], self.3)?;
        {
            let mut g = f.with(self.0);
            put_way(&mut g, self.2[1], self.3)?;
            put_way(&mut g.with(self.1), self.2[2], self.3)?;
            g.write_str("g")?;
        }
        f.write_str("f")
    }
}
fn ways() {
    let c = ['a', '\u{e9}', '\u{20ac}', '\u{1f980}', '\n'][nd::concrete(nd::below(5)) as usize];
    let v = Ways(M::any(), M::builtin(), core::array::from_fn(|_| nd::concrete(nd::below(WAYS))), c);
    let mut e = Expect::<24>::new();
    let g = v.0.model(DEF);
    let mut b = [0; 4];
    let text = c.encode_utf8(&mut b).as_bytes();
    for (way, s) in [(v.2[0], DEF), (v.2[1], g), (v.2[2], v.1.model(g))] {
        if way >= 3 && way <= 5 { e.push(b'<', if way == 5 { St { f: 2, ..s } } else { s }); }
        for t in text { e.push(*t, s); }
    }
    e.push(b'g', g);
    e.push(b'f', DEF);
    let mut w = Rec::new(e);
    assert!(stylish::write!(w, "{:s}", v).is_ok(), "succeeds");
    assert!(w.complete(), "every piece in its formatter's style");
}

harnesses! {
    [8] fn q_ways() { ways() }
    [8] fn q_deep() { deep::<8, 18>(|w, m| stylish::write!(w, "{:s}", Deep(m))) }
    [8] fn q_doll() { deep::<8, 18>(|w, m| stylish::write!(w, "{:s}", Doll(&m, 0))) }
    [8] fn t_deep() { deep::<11, 24>(|w, m| stylish::write!(w, "{:s}", Deep(m))) }
    [4] fn q_flat_flags() { under_flags!(Flat(M::any(), M::any(), M::builtin()), flat, 9) }
    [4] fn q_nested_flags() { under_flags!(Flags(M::any(), M::any(), nd::concrete(nd::below(4))), flags, 8) }
    [4] fn q_with() {
        let v = Flat(M::any(), M::any(), M::any());
        let mut e = Expect::<9>::new();
        e.push(b'<', DEF);
        flat(&mut e, &v, DEF);
        e.push(b'>', DEF);
        let mut w = Rec::new(e);
        assert!(stylish::write!(w, "<{:s}>", v).is_ok(), "succeeds");
        assert!(w.complete(), "every piece in its formatter's style");
    }
    [4] fn q_nested() {
        let (m, k) = (M::any(), M::any());
        let v = Outer(m, k);
        let mut e = Expect::<12>::new();
        let g = m.model(DEF);
        e.push(b'x', DEF);
        e.push(b'l', g);
        inner(&mut e, k, g);
        e.push(b'm', g);
        inner(&mut e, k, St { i: 1, ..g });
        e.push(b'n', g);
        e.push(b'y', DEF);
        inner(&mut e, k, St { b: 1, ..DEF });
        e.push(b'z', DEF);
        let mut w = Rec::new(e);
        assert!(stylish::write!(w, "{:s}", v).is_ok(), "succeeds");
        assert!(w.complete(), "every piece in its formatter's style");
    }
    [4] fn q_under_attributes() {
        let v = Flat(M::any(), M::builtin(), M::builtin());
        let mut e = Expect::<9>::new();
        let s = St { f: 4, b: 16, i: 2 };
        e.push(b'<', DEF);
        flat(&mut e, &v, s);
        e.push(b'>', DEF);
        let mut w = Rec::new(e);
        assert!(stylish::write!(w, "<{:(fg=blue,faint)s}>", v).is_ok(), "succeeds");
        assert!(w.complete(), "every piece in its formatter's style");
    }
}
