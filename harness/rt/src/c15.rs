use crate::{model::*, nd};
use std::io::{Error, ErrorKind, Result};
use stylish::{io::Write, Style};

/// Styled byte sink with a script of answers; accepts everything after the script.
struct Scripted<const N: usize, const S: usize> {
    data: [u8; N],
    style: St,
    pos: usize,
    script: [u8; S],
    step: usize,
    right: bool,
    stopped: bool,
    calls: u8,
}
impl<const N: usize, const S: usize> Write for Scripted<N, S> {
    fn write(&mut self, buf: &[u8], style: Style) -> Result<usize> {
        self.calls += 1;
        if self.stopped || buf.is_empty() || St::of(style) != self.style {
            self.right = false;
        }
        let a = if self.step < S { self.script[self.step] } else { 100 };
        self.step += 1;
        if a == 101 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if a == 102 {
            self.stopped = true;
            return Err(Error::from(ErrorKind::BrokenPipe));
        }
        if a == 103 {
            self.stopped = true;
            return Err(Error::from(ErrorKind::WouldBlock));
        }
        let n = if (a as usize) < buf.len() { a as usize } else { buf.len() };
        if n == 0 {
            self.stopped = true;
        }
        let mut i = 0;
        while i < n {
            if self.pos >= N || buf[i] != self.data[self.pos] {
                self.right = false;
            } else {
                self.pos += 1;
            }
            i += 1;
        }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.right = false;
        Ok(())
    }
}

fn script<const N: usize, const S: usize>(through_ref: bool) {
    let mut data = [0u8; N];
    let mut i = 0;
    while i < N {
        data[i] = nd::u8();
        i += 1;
    }
    let len = if N > 10 { [1, 16, 33, 40][nd::concrete(nd::below(4)) as usize] } else { nd::below(N as u8 + 1) as usize };
    let mut acts = [0u8; S];
    let mut i = 0;
    while i < S {
        let a = if N > 10 { [0, 1, 2, 8, 15, 16, 17, 31, 39, 40, 100, 101, 102, 103][nd::concrete(nd::below(14)) as usize] } else { nd::u8() };
        nd::assume(a <= N as u8 || (a >= 100 && a <= 103));
        acts[i] = a;
        i += 1;
    }
    let style = St::any();
    let mut w = Scripted::<N, S> { data, style, pos: 0, script: acts, step: 0, right: true, stopped: false, calls: 0 };
    let r = if through_ref {
        w.by_ref().write_all(&data[..len], style.style())
    } else {
        w.write_all(&data[..len], style.style())
    };
    assert!(w.right, "bytes in order, once, in the style, and nothing after a failure");
    match r {
        Ok(()) => {
            assert!(!w.stopped, "a failure is reported");
            assert!(w.pos == len, "success delivers everything");
            assert!(len > 0 || w.calls == 0, "an empty buffer never touches the sink");
        }
        Err(e) => {
            assert!(w.stopped, "only a failure is reported");
            let a = acts[w.step - 1];
            let want = if a == 102 { ErrorKind::BrokenPipe } else if a == 103 { ErrorKind::WouldBlock } else { ErrorKind::WriteZero };
            assert!(e.kind() == want, "the first real error");
        }
    }
}
/// A sink that accepts one byte at a time and is interrupted very often before one of them.
struct Stubborn { len: usize, style: St, pos: usize, at: usize, interrupts: u32, data: u8, there: usize, right: bool, end: u8, stopped: bool }
impl Write for Stubborn {
    fn write(&mut self, buf: &[u8], style: Style) -> Result<usize> {
        self.right &= !self.stopped && St::of(style) == self.style && buf.len() <= self.len - self.pos;
        if self.pos == self.at && self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.pos == self.at && self.end > 0 {
            self.stopped = true;
            return if self.end == 1 { Err(Error::from(ErrorKind::BrokenPipe)) } else { Ok(0) };
        }
        self.right &= buf.len() > 0 && buf[0] == if self.pos == self.there { self.data } else { b'x' };
        self.pos += 1;
        Ok(1)
    }
    fn flush(&mut self) -> Result<()> {
        self.right = false;
        Ok(())
    }
}
fn stubborn() {
    let n = [1, 2, 70, 300][nd::concrete(nd::below(4)) as usize];
    let interrupts = [0, 1, 5, 8, 10, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1025, 5000][nd::concrete(nd::below(21)) as usize];
    let at = [0, n / 2, n - 1][nd::concrete(nd::below(3)) as usize];
    let there = [0, n / 2, n - 1][nd::concrete(nd::below(3)) as usize];
    let end = nd::concrete(nd::below(3));
    let mut text = [b'x'; 300];
    let data = nd::u8();
    text[there] = data;
    let style = St::any();
    let mut w = Stubborn { len: n, style, pos: 0, at, interrupts, data, there, right: true, end, stopped: false };
    let r = if nd::concrete(nd::below(2)) == 1 { w.by_ref().write_all(&text[..n], style.style()) } else { w.write_all(&text[..n], style.style()) };
    assert!(w.right, "bytes in order, once, in the style, and nothing after a failure");
    match r {
        Ok(()) => assert!(end == 0 && w.pos == n, "success delivers everything"),
        Err(e) => assert!(w.stopped && e.kind() == if end == 1 { ErrorKind::BrokenPipe } else { ErrorKind::WriteZero }, "the first real error"),
    }
}
/// A large buffer, accepted in pieces of one size.
fn large() {
    const N: usize = 65540;
    let n = [255, 256, 1024, 4096, 4097, 8192, 8193, 16385, 65535, 65536, 65537, N][nd::concrete(nd::below(12)) as usize];
    let step = [n, n - 1, n / 2, 4096, 1000, 4095, 65535][nd::concrete(nd::below(7)) as usize];
    let there = [0, n / 2, n - 1, step - 1, step][nd::concrete(nd::below(5)) as usize];
    nd::assume(there < n);
    let mut text = [b'x'; N];
    let data = nd::u8();
    text[there] = data;
    let style = St::any();
    let mut w = Pieces { len: n, style, pos: 0, step, there, data, right: true };
    let r = w.write_all(&text[..n], style.style());
    assert!(r.is_ok(), "nothing failed");
    assert!(w.right && w.pos == n, "bytes in order, once, in the style");
}
struct Pieces { len: usize, style: St, pos: usize, step: usize, there: usize, data: u8, right: bool }
impl Write for Pieces {
    fn write(&mut self, buf: &[u8], style: Style) -> Result<usize> {
        self.right &= St::of(style) == self.style && buf.len() > 0 && buf.len() <= self.len - self.pos;
        let n = if buf.len() < self.step { buf.len() } else { self.step };
        // the ends of the piece, and the one byte that tells the positions apart
        if self.right && self.there >= self.pos && self.there < self.pos + n {
            self.right &= buf[self.there - self.pos] == self.data;
        } else if self.right {
            self.right &= buf[0] == b'x' && buf[n - 1] == b'x';
        }
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.right = false;
        Ok(())
    }
}
/// A failure of any sort, alone or with a payload, now or after some bytes, with an interruption before it.
struct Failing { kind: ErrorKind, payload: bool, after: usize, seen: usize, interrupts: u8, right: bool, stopped: bool }
impl Write for Failing {
    fn write(&mut self, buf: &[u8], _: Style) -> Result<usize> {
        self.right &= !self.stopped && !buf.is_empty();
        if self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.seen == self.after {
            self.stopped = true;
            return Err(if self.payload { Error::new(self.kind, "reason") } else { Error::from(self.kind) });
        }
        self.seen += 1;
        Ok(1)
    }
    fn flush(&mut self) -> Result<()> {
        self.right = false;
        Ok(())
    }
}
fn kinds() {
    let (kind, payload) = (error_kind(), nd::concrete(nd::below(2)) == 1);
    let after = nd::concrete(nd::below(4)) as usize;
    let mut w = Failing { kind, payload, after, seen: 0, interrupts: nd::concrete(nd::below(2)), right: true, stopped: false };
    let text = [nd::u8(), nd::u8(), nd::u8()];
    let r = w.write_all(&text, St::few().style());
    assert!(w.right, "nothing after a failure");
    match r {
        Ok(()) => assert!(after == 3, "a failure is reported"),
        Err(e) => assert!(after < 3 && e.kind() == kind && e.get_ref().is_some() == payload, "the first real error"),
    }
}
harnesses! {
    [10] fn q_kinds() { kinds() }
    [10] fn q_large() { large() }
    [10] fn q_stubborn() { stubborn() }
    [7] fn q_direct() { script::<3, 4>(false) }
    [7] fn q_ref() { script::<3, 4>(true) }
    [10] fn q_long() { script::<40, 3>(false) }
    [10] fn t_direct() { script::<4, 5>(false) }
    [10] fn t_long() { script::<6, 6>(false) }
}
