use crate::{model::*, nd};
use core::cell::Cell;
use std::io::{Error, ErrorKind, Result};
use stylish::io::Write as _;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Act { All, Part(u8), Zero, Interrupted, Failed(u8) }
fn kind(k: u8) -> ErrorKind {
    match k {
        0 => ErrorKind::BrokenPipe,
        1 => ErrorKind::WouldBlock,
        2 => ErrorKind::TimedOut,
        _ => ErrorKind::Other,
    }
}
fn failed(a: Act) -> bool { matches!(a, Act::Failed(_)) }
/// The error is what the sink just did.
fn own(a: Act, e: ErrorKind) -> bool {
    match a {
        Act::Failed(k) => e == kind(k),
        Act::Zero => e == ErrorKind::WriteZero,
        _ => false,
    }
}

/// Byte sink over a terminal; at up to three chosen calls it does something other than accept everything.
pub struct Faulty<'a, const N: usize> {
    pub term: Term<N>,
    pub calls: u16,
    pub at: [u8; 3],
    pub act: [Act; 3],
    pub shown: &'a Cell<usize>,
    pub last: &'a Cell<Act>,
    pub escapes: &'a Cell<u16>,
    /// No escape code is half written.
    pub rest: &'a Cell<bool>,
    /// How often it was flushed, and the kind of error flushing ends with.
    pub flushes: u8,
    pub flush: Option<u8>,
}

pub fn fault() -> Act {
    let k = nd::below(4);
    if k == 0 { Act::Part(1 + nd::below(63)) } else if k == 1 { Act::Zero } else if k == 2 { Act::Interrupted } else { Act::Failed(nd::below(4)) }
}

impl<const N: usize> std::io::Write for Faulty<'_, N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let c = self.calls;
        self.calls += 1;
        let act = if c == self.at[0] as u16 { self.act[0] } else if c == self.at[1] as u16 { self.act[1] } else if c == self.at[2] as u16 { self.act[2] } else { Act::All };
        self.last.set(act);
        let n = match act {
            Act::All => buf.len(),
            Act::Part(n) => if buf.len() > n as usize { n as usize } else { buf.len() },
            Act::Zero => 0,
            Act::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
            Act::Failed(k) => return Err(Error::from(kind(k))),
        };
        self.term.bytes(&buf[..n]);
        self.shown.set(self.term.shown);
        self.escapes.set(self.term.escapes);
        self.rest.set(self.term.at_rest());
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.flushes += 1;
        match self.flush {
            None => Ok(()),
            Some(k) => Err(Error::from(kind(k))),
        }
    }
}

/// `K` writes of `L` bytes each, every one driven to completion by its caller, with up to `F`
/// faults at arbitrary sink calls.
fn history<const K: usize, const L: usize, const N: usize, const F: usize>(pick: fn() -> St) { history_of::<K, L, N, F>(|_| pick()) }
fn history_of<const K: usize, const L: usize, const N: usize, const F: usize>(pick: impl Fn(usize) -> St) {
    let mut exp = Expect::<N>::new();
    let mut text = [0u8; N];
    let mut style = [DEF; K];
    let mut k = 0;
    while k < K {
        style[k] = pick(k);
        let mut l = 0;
        while l < L {
            // any byte at all, as this is a byte stream, but for the one that begins an escape code
            text[k * L + l] = nd::u8();
            nd::assume(text[k * L + l] != 0x1b);
            exp.push(text[k * L + l], style[k]);
            l += 1;
        }
        k += 1;
    }
    let mut at = [200u8; 3];
    let mut act = [Act::All; 3];
    let mut i = 0;
    while i < F {
        at[i] = nd::u8();
        act[i] = fault();
        i += 1;
    }
    let (shown, last, escapes, rest) = (Cell::new(0), Cell::new(Act::All), Cell::new(0), Cell::new(true));
    let mut w = stylish::io::ansi(Faulty { term: Term::new(exp), calls: 0, at, act, shown: &shown, last: &last, escapes: &escapes, rest: &rest, flushes: 0, flush: None });
    let mut given = DEF;
    let mut want_escapes = 0;
    let mut k = 0;
    while k < K {
        let mut pos = 0;
        if style[k] != given {
            want_escapes += 1;
        }
        given = style[k];
        let mut attempt = 0;
        while attempt < L + F {
            if pos < L {
                let before = shown.get();
                last.set(Act::All);
                let r = w.write(&text[k * L + pos..k * L + L], style[k].style());
                let accepted = shown.get() - before;
                match r {
                    Ok(n) => {
                        assert!(n <= L - pos, "never more than offered");
                        assert!(n == accepted, "reports the text bytes the sink accepted");
                        assert!(last.get() != Act::Interrupted && !failed(last.get()), "an error is not swallowed");
                        if n == 0 {
                            assert!(last.get() == Act::Zero, "nothing accepted only when the sink accepted nothing");
                            return;
                        }
                        pos += n;
                    }
                    Err(e) => {
                        assert!(accepted == 0, "an error only when no text was accepted");
                        let kind = e.kind();
                        if kind == ErrorKind::Interrupted {
                            assert!(last.get() == Act::Interrupted, "interruption comes from the sink");
                        } else {
                            assert!(own(last.get(), kind), "the sink's own error is reported");
                            // a failure inside an escape code cannot be made up for, after any
                            // other one the caller may go on
                            if !rest.get() {
                                return;
                            }
                        }
                    }
                }
            }
            attempt += 1;
        }
        assert!(pos == L, "completes once faults stop");
        assert!(escapes.get() == want_escapes, "no repeated escape code on retry");
        k += 1;
    }
    last.set(Act::All);
    match w.finish() {
        Ok(f) => {
            assert!(f.term.wellformed && f.term.at_rest(), "escape codes arrive whole");
            assert!(f.term.right && f.term.shown == N, "every character shown in its style");
            assert!(f.term.minimal, "escape codes name only what changes");
            assert!(f.term.shows(DEF), "terminal left in the default style");
            assert!(!failed(last.get()) && last.get() != Act::Zero, "finishing reports failures");
        }
        Err(e) => assert!(own(last.get(), e.kind()), "finishing fails with the sink's own error"),
    }
}
/// Flushing reaches the sink, reports what the sink reports and writes nothing.
fn flushed() {
    let text = [nd::u8(), nd::u8()];
    nd::assume(text[0] != 0x1b && text[1] != 0x1b);
    let (a, b) = (St::few(), St::few());
    let mut exp = Expect::<2>::new();
    exp.push(text[0], a);
    exp.push(text[1], b);
    let (shown, last, escapes, rest) = (Cell::new(0), Cell::new(Act::All), Cell::new(0), Cell::new(true));
    let flush = if nd::bool() { Some(nd::below(4)) } else { None };
    let mut w = stylish::io::ansi(Faulty { term: Term::new(exp), calls: 0, at: [200; 3], act: [Act::All; 3], shown: &shown, last: &last, escapes: &escapes, rest: &rest, flushes: 0, flush });
    let when = nd::below(3);
    let times = 1 + nd::below(2);
    let mut k = 0;
    while k < 3 {
        if k == when as usize {
            let mut t = 0;
            while t < times {
                let before = (shown.get(), escapes.get());
                last.set(Act::Zero);
                match w.flush() {
                    Ok(()) => assert!(flush.is_none(), "a failed flush is reported"),
                    Err(e) => assert!(flush.is_some() && e.kind() == kind(flush.unwrap_or(0)), "flushing fails with the sink's own error"),
                }
                assert!(before == (shown.get(), escapes.get()) && last.get() == Act::Zero, "flushing writes nothing");
                t += 1;
            }
        }
        if k < 2 {
            let r = w.write(&text[k..k + 1], [a, b][k].style());
            assert!(matches!(r, Ok(1)), "accepted");
        }
        k += 1;
    }
    match w.finish() {
        Ok(f) => {
            assert!(f.flushes >= times, "every flush reaches the sink");
            assert!(f.term.wellformed && f.term.at_rest() && f.term.right && f.term.shown == 2, "every character shown in its style");
            assert!(f.term.minimal, "escape codes name only what changes");
            assert!(f.term.shows(DEF), "terminal left in the default style");
        }
        Err(_) => assert!(false, "finishing succeeds"),
    }
}
fn two() -> St { St { f: if nd::bool() { 16 } else { 1 }, b: 16, i: if nd::bool() { 0 } else { 1 } } }

harnesses! {
    [6] fn q_faultless() { history::<2, 1, 2, 0>(St::any) }
    [6] fn q_one_fault() { history::<1, 3, 3, 1>(St::any) }
    [6] fn q_two_faults() { history::<1, 3, 3, 2>(St::few) }
    [6] fn q_two_writes() { history::<2, 2, 4, 2>(St::few) }
    [6] fn q_three_writes() { history::<3, 1, 3, 2>(two) }
    [6] fn q_four_fg() { history::<4, 1, 4, 0>(foregrounds) }
    [6] fn q_four_bg() { history::<4, 1, 4, 0>(backgrounds) }
    [6] fn q_fg() { history::<2, 1, 2, 1>(foregrounds) }
    [6] fn q_bg() { history::<2, 1, 2, 1>(backgrounds) }
    [6] fn q_flush() { flushed() }
    [6] fn q_many() {
        let every = [1, 2, 7][nd::concrete(nd::below(3)) as usize];
        history_of::<110, 1, 110, 1>(|k| [St { f: 12, ..DEF }, St { f: 12, b: 1, i: 1 }, DEF, St { i: 2, ..DEF }][k / every % 4])
    }
    [6] fn q_longer() { history::<2, 4200, 8400, 0>(two) }
    [6] fn q_long() { history::<1, 48, 48, 2>(two) }
    [6] fn t_three_faults() { history::<1, 4, 4, 3>(St::few) }
    [6] fn t_two_writes_three_faults() { history::<2, 2, 4, 3>(two) }
    [6] fn t_four_writes() { history::<4, 1, 4, 2>(two) }
}
