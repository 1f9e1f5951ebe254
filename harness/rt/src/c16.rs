use crate::{model::*, nd};
use core::cell::Cell;
use std::io::{Error, ErrorKind, Result};
use stylish::io::Write;

/// What a sink does when called: accept everything, one byte or nothing, be interrupted, fail.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Act { All, One, Zero, Interrupted, Broken, Block, System }
fn act() -> Act {
    match nd::below(6) {
        0 => Act::One,
        1 => Act::Zero,
        2 => Act::Interrupted,
        3 => Act::Broken,
        4 => Act::Block,
        _ => Act::System,
    }
}

/// What a sink puts into its error, to be found again in the one that is returned.
#[derive(Debug)]
struct Payload(u8);
impl core::fmt::Display for Payload {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl std::error::Error for Payload {}
/// The very error a sink failed with.
fn own(e: &Error, k: ErrorKind) -> bool {
    e.kind() == k
        && match k {
            ErrorKind::WouldBlock => e.get_ref().is_some_and(|p| p.downcast_ref::<Payload>().is_some_and(|p| p.0 == 77)),
            ErrorKind::PermissionDenied => e.raw_os_error() == Some(13),
            _ => true,
        }
}

/// Shared by the styled and the unstyled sink: faults at up to two chosen calls.
struct Core {
    calls: u8,
    at: [u8; 2],
    act: [Act; 2],
    failed: Option<ErrorKind>,
    again: bool,
}
impl Core {
    fn new(faults: usize) -> Core {
        let mut c = Core { calls: 0, at: [200; 2], act: [Act::All; 2], failed: None, again: false };
        let mut i = 0;
        while i < faults {
            c.at[i] = nd::u8();
            c.act[i] = act();
            i += 1;
        }
        c
    }
    fn answer(&mut self, len: usize) -> Result<usize> {
        if self.failed.is_some() {
            self.again = true;
        }
        let c = self.calls;
        self.calls += 1;
        let act = if c == self.at[0] { self.act[0] } else if c == self.at[1] { self.act[1] } else { Act::All };
        match act {
            Act::All => Ok(len),
            Act::One => Ok(if len > 0 { 1 } else { 0 }),
            Act::Zero => {
                if len > 0 {
                    self.failed = Some(ErrorKind::WriteZero);
                }
                Ok(0)
            }
            Act::Interrupted => Err(Error::from(ErrorKind::Interrupted)),
            Act::Broken => {
                self.failed = Some(ErrorKind::BrokenPipe);
                Err(Error::from(ErrorKind::BrokenPipe))
            }
            Act::Block => {
                self.failed = Some(ErrorKind::WouldBlock);
                Err(Error::new(ErrorKind::WouldBlock, Payload(77)))
            }
            Act::System => {
                self.failed = Some(ErrorKind::PermissionDenied);
                Err(Error::from_raw_os_error(13))
            }
        }
    }
}

struct Styled<const N: usize> { core: Core, rec: Rec<N> }
impl<const N: usize> Write for Styled<N> {
    fn write(&mut self, buf: &[u8], style: stylish::Style) -> Result<usize> {
        let n = self.core.answer(buf.len())?;
        self.rec.take(&buf[..n], St::of(style));
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
struct Bytes<const N: usize> { core: Core, rec: Rec<N> }
impl<const N: usize> std::io::Write for Bytes<N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = self.core.answer(buf.len())?;
        self.rec.take(&buf[..n], DEF);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}

/// A value that writes one byte and fails before it (1), after it (2) or not at all (0).
struct V<'a>(u8, u8, &'a Cell<bool>);
impl core::fmt::Display for V<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        if self.1 == 1 {
            self.2.set(true);
            return Err(core::fmt::Error);
        }
        f.write_str(core::str::from_utf8(&[self.0]).unwrap())?;
        if self.1 == 2 {
            self.2.set(true);
            return Err(core::fmt::Error);
        }
        Ok(())
    }
}
impl stylish::Display for V<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        stylish::write!(f, "{:(bold)}", self)
    }
}

fn verdict<const N: usize>(r: Result<()>, core: &Core, rec: &Rec<N>, value_failed: bool) {
    assert!(rec.right, "bytes in order, once, in their style");
    assert!(!core.again, "nothing is written after a failure");
    match r {
        Ok(()) => {
            assert!(core.failed.is_none(), "a sink failure is not swallowed");
            assert!(!value_failed, "a formatting failure is not swallowed");
            assert!(rec.complete(), "success means everything was written");
        }
        Err(e) => match core.failed {
            Some(k) => assert!(own(&e, k), "the sink's own error"),
            None => {
                assert!(value_failed, "no failure is invented");
                assert!(e.kind() != ErrorKind::Interrupted, "a formatting failure is not an interruption");
            }
        },
    }
}

fn pieces<const N: usize>(x: u8, y: u8, styled: bool) -> Expect<N> {
    let bold = if styled { St { i: 1, ..DEF } } else { DEF };
    let red = if styled { St { f: 1, ..bold } } else { DEF };
    let mut e = Expect::<N>::new();
    e.push(b'a', DEF);
    e.push(b'b', DEF);
    e.push(x, red);
    e.push(b'c', DEF);
    e.push(y, bold);
    e.push(b'd', DEF);
    e
}

fn styled(faults: usize, by_ref: bool, values: bool) {
    let (x, y) = (nd::plain_byte(), nd::plain_byte());
    let fail = if values { [nd::below(3), nd::below(3)] } else { [0, 0] };
    let bad = Cell::new(false);
    let mut w = Styled { core: Core::new(faults), rec: Rec::new(pieces::<6>(x, y, true)) };
    let (v, u) = (V(x, fail[0], &bad), V(y, fail[1], &bad));
    let args = stylish::format_args!("ab{:(fg=red,bold)}c{:s}d", v, u);
    let r = if by_ref { w.by_ref().write_fmt(args) } else { w.write_fmt(args) };
    verdict(r, &w.core, &w.rec, bad.get());
}
fn plain(faults: usize) {
    let (x, y) = (nd::plain_byte(), nd::plain_byte());
    let fail = [nd::below(3), nd::below(3)];
    let bad = Cell::new(false);
    let mut w = stylish::io::plain(Bytes { core: Core::new(faults), rec: Rec::new(pieces::<6>(x, y, false)) });
    let (v, u) = (V(x, fail[0], &bad), V(y, fail[1], &bad));
    let r = stylish::write!(w, "ab{:(fg=red,bold)}c{:s}d", v, u);
    let w = w.into_inner();
    verdict(r, &w.core, &w.rec, bad.get());
}

/// The ANSI byte adaptor under formatted writes: the sink publishes what happened to it.
struct Term2<'a, const N: usize> { core: Core, term: Term<N>, out: &'a Cell<(Option<ErrorKind>, bool, bool, usize)> }
impl<const N: usize> std::io::Write for Term2<'_, N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let r = self.core.answer(buf.len());
        if let Ok(n) = r {
            self.term.bytes(&buf[..n]);
        }
        self.out.set((self.core.failed, self.core.again, self.term.right && self.term.wellformed, self.term.shown));
        r
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn ansi(faults: usize) {
    let (x, y) = (nd::plain_byte(), nd::plain_byte());
    let fail = [nd::below(3), nd::below(3)];
    let bad = Cell::new(false);
    let out = Cell::new((None, false, true, 0));
    let mut w = stylish::io::ansi(Term2 { core: Core::new(faults), term: Term::new(pieces::<6>(x, y, true)), out: &out });
    let (v, u) = (V(x, fail[0], &bad), V(y, fail[1], &bad));
    let r = stylish::write!(w, "ab{:(fg=red,bold)}c{:s}d", v, u);
    let (failed, again, right, shown) = out.get();
    assert!(right, "shown bytes in order, once, in their style");
    assert!(!again, "nothing is written after a failure");
    match r {
        Ok(()) => {
            assert!(failed.is_none() && !bad.get(), "no failure is swallowed");
            assert!(shown == 6, "success means everything was written");
        }
        Err(e) => match failed {
            Some(k) => assert!(own(&e, k), "the sink's own error"),
            None => assert!(bad.get() && e.kind() != ErrorKind::Interrupted, "no failure is invented"),
        },
    }
}

/// Sinks whose faults are told from outside, write by write.
struct Shared<'a>(&'a Cell<(u8, Act, bool)>);
impl Shared<'_> {
    fn answer(&self, len: usize) -> Result<usize> {
        let (left, act, hit) = self.0.get();
        if left > 0 {
            self.0.set((left - 1, act, hit));
            return Ok(len);
        }
        self.0.set((250, act, true));
        match act {
            Act::Broken => Err(Error::from(ErrorKind::BrokenPipe)),
            Act::Block => Err(Error::new(ErrorKind::WouldBlock, Payload(77))),
            Act::System => Err(Error::from_raw_os_error(13)),
            Act::Interrupted => Err(Error::from(ErrorKind::Interrupted)),
            Act::Zero => Ok(0),
            Act::One => Ok(1),
            Act::All => Ok(len),
        }
    }
}
impl Write for Shared<'_> {
    fn write(&mut self, buf: &[u8], _: stylish::Style) -> Result<usize> { self.answer(buf.len()) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl std::io::Write for Shared<'_> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> { self.answer(buf.len()) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
/// Several formatted writes to one adaptor: each is judged by itself, whatever happened to the others.
fn several(sink: u8, times: u8) {
    let told = Cell::new((0, Act::All, false));
    let mut plain = stylish::io::plain(Shared(&told));
    let mut ansi = stylish::io::ansi(Shared(&told));
    let mut own_sink = Shared(&told);
    for _ in 0..times {
        let a = nd::concrete(nd::below(7));
        let act = [Act::All, Act::One, Act::Zero, Act::Interrupted, Act::Broken, Act::Block, Act::System][a as usize];
        told.set((nd::concrete(nd::below(7)), act, false));
        let bad = Cell::new(false);
        let v = V(b'v', nd::concrete(nd::below(3)), &bad);
        let r = match sink {
            0 => stylish::write!(plain, "a{:(bold)}b{:s}", v, v),
            1 => stylish::write!(ansi, "a{:(bold)}b{:s}", v, v),
            _ => own_sink.by_ref().write_fmt(stylish::format_args!("a{:(bold)}b{:s}", v, v)),
        };
        let (_, _, hit) = told.get();
        let failed = match act {
            _ if !hit => None,
            Act::Zero => Some(ErrorKind::WriteZero),
            Act::Broken => Some(ErrorKind::BrokenPipe),
            Act::Block => Some(ErrorKind::WouldBlock),
            Act::System => Some(ErrorKind::PermissionDenied),
            _ => None,
        };
        match r {
            Ok(()) => assert!(failed.is_none() && !bad.get(), "no failure is swallowed"),
            Err(e) => match failed {
                Some(k) => assert!(own(&e, k), "the sink's own error"),
                None => assert!(bad.get() && e.kind() != ErrorKind::Interrupted, "no failure is invented"),
            },
        }
    }
}
/// A long text, one byte accepted at a time or very many interruptions, then perhaps a failure.
struct Slow { step: usize, interrupts: u32, fail_at: usize, seen: usize, failed: bool, again: bool }
impl Slow {
    fn answer(&mut self, len: usize) -> Result<usize> {
        self.again |= self.failed;
        if self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.seen >= self.fail_at {
            self.failed = true;
            return Err(Error::from_raw_os_error(13));
        }
        let n = if len < self.step { len } else { self.step };
        self.seen += n;
        Ok(n)
    }
}
impl Write for Slow {
    fn write(&mut self, buf: &[u8], _: stylish::Style) -> Result<usize> { self.answer(buf.len()) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn slow() {
    let n = [1, 64, 300, 4200, 9000][nd::concrete(nd::below(5)) as usize];
    let interrupts = [0, 1, 7, 8, 16, 17, 32, 64, 100, 128, 255, 256, 1000][nd::concrete(nd::below(13)) as usize];
    let step = [1, 2, 63, 400, 4096][nd::concrete(nd::below(5)) as usize];
    let fail_at = [0, 1, n, n + 1, n + 2, 1000][nd::concrete(nd::below(6)) as usize];
    static TEXT: [u8; 9000] = [b'x'; 9000];
    let text = unsafe { core::str::from_utf8_unchecked(&TEXT[..n]) };
    let mut w = Slow { step, interrupts, fail_at, seen: 0, failed: false, again: false };
    let r = stylish::write!(w, "a{:(bold)}b", text);
    assert!(!w.again, "nothing is written after a failure");
    assert!(r.is_err() == w.failed, "an error exactly when the sink fails");
    match r {
        Ok(()) => assert!(w.seen == n + 2, "success means everything was written"),
        Err(e) => assert!(own(&e, ErrorKind::PermissionDenied), "the sink's own error"),
    }
}

/// A failure of any sort, of `write` or of a `write_all` of the sink's own.
struct Failing { kind: ErrorKind, payload: bool, whole: bool, after: u8, right: bool, stopped: bool }
impl Failing {
    fn answer(&mut self, whole: bool) -> Result<()> {
        self.right &= !self.stopped && whole == self.whole;
        if self.after == 0 {
            self.stopped = true;
            return Err(if self.payload { Error::new(self.kind, "reason") } else { Error::from(self.kind) });
        }
        self.after -= 1;
        Ok(())
    }
}
impl Write for Failing {
    fn write(&mut self, buf: &[u8], _: stylish::Style) -> Result<usize> { self.answer(false).map(|()| buf.len()) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
    fn write_all(&mut self, mut buf: &[u8], style: stylish::Style) -> Result<()> {
        if self.whole { return self.answer(true); }
        while !buf.is_empty() {
            let n = self.write(buf, style)?;
            buf = &buf[n..];
        }
        Ok(())
    }
}
fn kinds() {
    let (kind, payload, whole) = (error_kind(), nd::concrete(nd::below(2)) == 1, nd::concrete(nd::below(2)) == 1);
    let after = nd::concrete(nd::below(5));
    let mut w = Failing { kind, payload, whole, after, right: true, stopped: false };
    let c = [nd::plain_byte()];
    let c = unsafe { core::str::from_utf8_unchecked(&c) };
    let r = if nd::concrete(nd::below(2)) == 1 { stylish::write!(w.by_ref(), "a{:(bold)}{:3}", c, "b") } else { stylish::write!(w, "a{:(bold)}{:3}", c, "b") };
    assert!(w.right, "nothing is written after a failure");
    assert!(r.is_err() == w.stopped, "an error exactly when the sink fails");
    assert!(w.stopped || after > 0, "the sink is reached");
    if let Err(e) = r {
        assert!(e.kind() == kind && e.get_ref().is_some() == payload, "the sink's own error");
    }
}

harnesses! {
    [8] fn q_kinds() { kinds() }
    [8] fn q_several_plain() { several(0, 2) }
    [8] fn q_several_ansi() { several(1, 2) }
    [8] fn q_several() { several(2, 2) }
    [8] fn t_several_plain() { several(0, 3) }
    [8] fn t_several_ansi() { several(1, 3) }
    [8] fn t_several() { several(2, 3) }
    [8] fn q_slow() { slow() }
    [8] fn q_styled() { styled(1, false, true) }
    [8] fn q_by_ref() { styled(1, true, false) }
    [8] fn q_two_faults() { styled(2, false, false) }
    [8] fn q_plain() { plain(1) }
    [8] fn q_ansi() { ansi(1) }
    [8] fn t_two_faults() { styled(2, false, true) }
    [8] fn t_plain() { plain(2) }
    [8] fn t_ansi() { ansi(2) }
}
