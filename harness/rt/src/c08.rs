use crate::{model::*, nd};
use core::cell::Cell;
use std::io::{Error, ErrorKind};
use stylish::{io::Write as _, Write as _};

/// Byte stream that checks each call is the one expected and answers as told.
struct Spy {
    want_op: u8,
    want: [u8; 3],
    want_len: usize,
    answer: u8,
    n: usize,
    calls: u8,
    right: bool,
}
impl Spy {
    fn answer<T>(&mut self, op: u8, buf: &[u8], ok: T) -> std::io::Result<T> {
        self.calls += 1;
        if op != self.want_op || buf.len() != self.want_len {
            self.right = false;
        } else {
            each!(buf, _c, [0 1 2] => ());
            if buf.len() > 0 && buf[0] != self.want[0] { self.right = false; }
            if buf.len() > 1 && buf[1] != self.want[1] { self.right = false; }
            if buf.len() > 2 && buf[2] != self.want[2] { self.right = false; }
        }
        fail(self.answer, ok)
    }
}
impl std::io::Write for Spy {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.n;
        self.answer(0, buf, n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.answer(1, &[], ())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.answer(2, buf, ())
    }
}
fn fail<T>(answer: u8, ok: T) -> std::io::Result<T> {
        match answer {
            0 => Ok(ok),
            1 => Err(Error::from(ErrorKind::Interrupted)),
            2 => Err(Error::from(ErrorKind::WriteZero)),
            3 => Err(Error::from(ErrorKind::BrokenPipe)),
            4 => Err(Error::from_raw_os_error(28)),
            5 => Err(Error::new(ErrorKind::UnexpectedEof, Payload(77))),
            6 => Err(Error::from(ErrorKind::WouldBlock)),
            _ => Err(Error::new(ErrorKind::Other, Payload(78))),
        }
}
/// The same, told what to expect and answer from outside.
struct Told<'a> { order: &'a Cell<(u8, [u8; 3], usize, u8, usize)>, done: &'a Cell<(u8, bool)> }
impl Told<'_> {
    fn answer<T>(&mut self, op: u8, buf: &[u8], ok: impl Fn(usize) -> T) -> std::io::Result<T> {
        let (want_op, want, len, answer, n) = self.order.get();
        let (calls, mut right) = self.done.get();
        right &= op == want_op && buf.len() == len;
        let mut i = 0;
        while right && i < len {
            right &= buf[i] == want[i];
            i += 1;
        }
        self.done.set((calls + 1, right));
        fail(answer, ok(n))
    }
}
impl std::io::Write for Told<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { self.answer(0, buf, |n| n) }
    fn flush(&mut self) -> std::io::Result<()> { self.answer(1, &[], |_| ()) }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> { self.answer(2, buf, |_| ()) }
}
/// The same for a long buffer.
struct Long<'a> { want: &'a [u8], answer: u8, n: usize, all: bool, calls: u8, right: bool }
impl Long<'_> {
    fn answer<T>(&mut self, all: bool, buf: &[u8], ok: T) -> std::io::Result<T> {
        self.calls += 1;
        self.right &= all == self.all && buf.len() == self.want.len();
        if self.right {
            let mut i = 0;
            while i < buf.len() {
                self.right &= buf[i] == self.want[i];
                i += 1;
            }
        }
        fail(self.answer, ok)
    }
}
impl std::io::Write for Long<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.n;
        self.answer(false, buf, n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.right = false;
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.answer(true, buf, ())
    }
}
#[derive(Debug)]
struct Payload(u8);
impl core::fmt::Display for Payload {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl std::error::Error for Payload {}
fn code<T>(r: std::io::Result<T>) -> Result<T, u8> {
    r.map_err(|e| {
        if e.raw_os_error() == Some(28) { return 4; }
        let payload = e.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0);
        match (e.kind(), payload) {
            (ErrorKind::Interrupted, None) => 1,
            (ErrorKind::WriteZero, None) => 2,
            (ErrorKind::BrokenPipe, None) => 3,
            (ErrorKind::UnexpectedEof, Some(77)) => 5,
            (ErrorKind::WouldBlock, None) => 6,
            (ErrorKind::Other, Some(78)) => 7,
            _ => 100,
        }
    })
}

/// A long text in two parts, with an arbitrary byte in it.
fn plain_long<const N: usize>(cut: usize, at: usize) {
    let mut exp = Expect::<N>::new();
    let mut text = [b'x'; N];
    text[at] = nd::plain_byte();
    let mut i = 0;
    while i < N { exp.push(text[i], DEF); i += 1; }
    let s = unsafe { core::str::from_utf8_unchecked(&text) };
    let mut w = stylish::plain(Rec::new(exp));
    assert!(stylish::Write::write_str(&mut w, &s[..cut], DEF.style()).is_ok(), "write succeeds");
    assert!(stylish::Write::write_str(&mut w, &s[cut..], St::few().style()).is_ok(), "write succeeds");
    assert!(w.into_inner().complete(), "exactly the written text");
}
harnesses! {
    [6] fn q_ops() {
        let h = Hist::<3>::of(6, St::few);
        let e = h.expect::<12>();
        let mut w = stylish::plain(Rec::new(e));
        h.put_by(&ops(), &mut w);
        assert!(w.into_inner().complete(), "exactly the written text");
    }
    [6] fn q_many() {
        let h = Hist::<300>::longs();
        let mut w = stylish::plain(Rec::new(h.expect::<302>()));
        h.put(&mut w);
        assert!(w.into_inner().complete(), "exactly the written text");
    }
    [6] fn q_long() { plain_long::<600>([0, 1, 64, 255, 256, 512, 599][nd::concrete(nd::below(7)) as usize], nd::concrete(nd::below(200)) as usize * 3) }
    [6] fn q_longer() {
        const AT: [usize; 9] = [0, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8299];
        plain_long::<8300>(AT[nd::concrete(nd::below(9)) as usize], AT[nd::concrete(nd::below(9)) as usize])
    }
    [6] fn q_text() {
        let mut exp = Expect::<4>::new();
        let text = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
        let cut = nd::below(5) as usize;
        let mut i = 0;
        while i < 4 { nd::assume(text[i] < 128); exp.push(text[i], DEF); i += 1; }
        let (a, b) = (St::any(), St::any());
        let mut w = stylish::plain(Rec::new(exp));
        let first = unsafe { core::str::from_utf8_unchecked(&text[..cut]) };
        let second = unsafe { core::str::from_utf8_unchecked(&text[cut..]) };
        assert!(stylish::Write::write_str(&mut w, first, a.style()).is_ok(), "write succeeds");
        assert!(stylish::Write::write_str(&mut w, second, b.style()).is_ok(), "write succeeds");
        assert!(w.into_inner().complete(), "exactly the written text");
    }
    [6] fn q_stream_long() {
        let n = [64, 255, 256, 4096, 8191, 8192, 8193, 65535, 65537][nd::concrete(nd::below(9)) as usize];
        let mut text = vec![b'x'; n];
        let at = [0, 63, n / 2, n - 1][nd::concrete(nd::below(4)) as usize];
        text[at] = nd::u8();
        let all = nd::concrete(nd::below(2)) == 1;
        let answer = nd::below(8);
        let taken = nd::usize();
        let s = St::any().style();
        let mut w = stylish::io::plain(Long { want: &text, answer, n: taken, all, calls: 0, right: true });
        if all {
            assert!(code(w.write_all(&text, s)) == if answer == 0 { Ok(()) } else { Err(answer) }, "write_all result is the stream's");
        } else {
            assert!(code(w.write(&text, s)) == if answer == 0 { Ok(taken) } else { Err(answer) }, "write result is the stream's");
        }
        let spy = w.into_inner();
        assert!(spy.right && spy.calls == 1, "forwarded unchanged, once");
    }
    [6] fn q_stream_twice() {
        let order = Cell::new((0, [0; 3], 0, 0, 0));
        let done = Cell::new((0, true));
        let mut w = stylish::io::plain(Told { order: &order, done: &done });
        let mut k = 0;
        while k < 2 {
            let op = nd::concrete(nd::below(3));
            let want = [nd::u8(), nd::u8(), nd::u8()];
            let want_len = if op == 1 { 0 } else { nd::below(4) as usize };
            let answer = nd::below(4);
            let n = nd::usize();
            let s = St { f: [16, 1][nd::concrete(nd::below(2)) as usize], ..DEF }.style();
            order.set((op, want, want_len, answer, n));
            let by_ref = nd::concrete(nd::below(2)) == 1;
            if op == 0 {
                let r = if by_ref { w.by_ref().write(&want[..want_len], s) } else { w.write(&want[..want_len], s) };
                assert!(code(r) == if answer == 0 { Ok(n) } else { Err(answer) }, "write result is the stream's");
            } else if op == 1 {
                let r = if by_ref { w.by_ref().flush() } else { w.flush() };
                assert!(code(r) == if answer == 0 { Ok(()) } else { Err(answer) }, "flush result is the stream's");
            } else {
                let r = if by_ref { w.by_ref().write_all(&want[..want_len], s) } else { w.write_all(&want[..want_len], s) };
                assert!(code(r) == if answer == 0 { Ok(()) } else { Err(answer) }, "write_all result is the stream's");
            }
            k += 1;
            assert!(done.get() == (k, true), "forwarded unchanged, once");
        }
        w.into_inner();
        assert!(done.get() == (2, true), "nothing after that");
    }
    [6] fn q_stream() {
        let op = nd::below(3);
        let want = [nd::u8(), nd::u8(), nd::u8()];
        let want_len = if op == 1 { 0 } else { nd::below(4) as usize };
        let answer = nd::below(8);
        let n = nd::usize();
        let s = St::any().style();
        let mut w = stylish::io::plain(Spy { want_op: op, want, want_len, answer, n, calls: 0, right: true });
        if op == 0 {
            assert!(code(w.write(&want[..want_len], s)) == if answer == 0 { Ok(n) } else { Err(answer) }, "write result is the stream's");
        } else if op == 1 {
            assert!(code(w.flush()) == if answer == 0 { Ok(()) } else { Err(answer) }, "flush result is the stream's");
        } else {
            assert!(code(w.write_all(&want[..want_len], s)) == if answer == 0 { Ok(()) } else { Err(answer) }, "write_all result is the stream's");
        }
        let spy = w.into_inner();
        assert!(spy.right && spy.calls == 1, "forwarded unchanged, once");
    }
}
