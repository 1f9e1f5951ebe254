use crate::{model::*, nd};
use stylish::Write as _;

/// Text after removing escape codes (ESC [ ... m), compared with what was written.
#[derive(Clone, Copy)]
struct Strip<const N: usize> { exp: Expect<N>, seen: usize, right: bool, phase: u8 }
impl<const N: usize> core::fmt::Write for Strip<N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if self.phase == 0 && c == 0x1b {
                self.phase = 1;
            } else if self.phase == 0 {
                if self.seen < self.exp.len && self.exp.byte[self.seen] == c {
                    self.seen += 1;
                } else {
                    self.right = false;
                }
            } else if c == b'm' {
                self.phase = 0;
            }
        }
        Ok(())
    }
}
/// Everything received, verbatim.
struct Tape<const T: usize> { data: [u8; T], len: usize }
impl<const T: usize> Tape<T> {
    fn new() -> Self { Tape { data: [0; T], len: 0 } }
    fn take(&mut self, s: &[u8]) {
        for &c in s {
            self.data[self.len] = c;
            self.len += 1;
        }
    }
}
impl<const T: usize> core::fmt::Write for Tape<T> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result { self.take(s.as_bytes()); Ok(()) }
}
impl<const T: usize> std::io::Write for Tape<T> {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> { self.take(s); Ok(s.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn texts<const K: usize, const N: usize>(pick: fn() -> St) { texts_by::<K, N>(3, pick, [0; K]) }
fn texts_by<const K: usize, const N: usize>(kinds: u8, pick: fn() -> St, by: [u8; K]) {
    judge::<K, N>(&Hist::of(kinds, pick), by)
}
fn judge<const K: usize, const N: usize>(h: &Hist<K>, by: [u8; K]) {
    let e = h.expect::<N>();
    let mut w = stylish::plain(Rec::new(e));
    h.put_by(&by, &mut w);
    assert!(w.into_inner().complete(), "plain output is the text");
    let mut w = stylish::ansi(Strip { exp: e, seen: 0, right: true, phase: 0 });
    h.put_by(&by, &mut w);
    match w.finish() {
        Ok(t) => assert!(t.right && t.phase == 0 && t.seen == e.len, "ANSI output without escape codes is the text"),
        Err(_) => assert!(false, "finish succeeds"),
    }
    let mut w = stylish::html(Page::new(e));
    h.put_by(&by, &mut w);
    match w.finish() {
        Ok(p) => assert!(p.text_right && p.closed() && p.shown == e.len, "HTML output without markup is the text"),
        Err(_) => assert!(false, "finish succeeds"),
    }
}
/// The same writes to both adaptors, through operations of either.
fn streams<const K: usize>(pick: fn() -> St) { streams_by::<K>(3, pick, [0; K], [0; K]) }
fn streams_by<const K: usize>(kinds: u8, pick: fn() -> St, by: [u8; K], io: [u8; K]) {
    identical::<K, 120>(&Hist::of(kinds, pick), by, io)
}
fn identical<const K: usize, const T: usize>(h: &Hist<K>, by: [u8; K], io: [u8; K]) {
    let mut w = stylish::ansi(Tape::<T>::new());
    h.put_by(&by, &mut w);
    let a = w.finish();
    let mut w = stylish::io::ansi(Tape::<T>::new());
    let mut k = 0;
    while k < K {
        let (t, st) = (&h.text[k][..h.len[k]], h.style[k].style());
        let s = unsafe { core::str::from_utf8_unchecked(t) };
        let r = match io[k] {
            1 if h.len[k] > 0 => stylish::io::Write::write(&mut w, t, st).map(|n| assert!(n == h.len[k], "all accepted")),
            2 => stylish::write!(w, "{:s}", Styled(s, h.style[k], false)),
            3 => stylish::io::Write::write_all(stylish::io::Write::by_ref(&mut w), t, st),
            4 => stylish::io::Write::write_all(&mut w, t, st).and_then(|()| stylish::io::Write::flush(&mut w)),
            _ => stylish::io::Write::write_all(&mut w, t, st),
        };
        assert!(r.is_ok(), "write succeeds");
        k += 1;
    }
    let b = w.finish();
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let mut same = a.len == b.len;
            let mut i = 0;
            while i < a.len && i < b.len {
                same &= a.data[i] == b.data[i];
                i += 1;
            }
            assert!(same, "text and byte-stream adaptors emit identical bytes");
        }
        _ => assert!(false, "finish succeeds"),
    }
}
fn io_ops<const K: usize>() -> [u8; K] {
    let mut o = [0; K];
    let mut k = 0;
    while k < K { o[k] = nd::concrete(nd::below(5)); k += 1; }
    o
}
/// A long text with an arbitrary byte anywhere, in one style or two, through every adaptor.
fn long<const N: usize>() {
    let mut text = [b'x'; N];
    let at = if N > 200 { [0, 1, 1023, 1024, 4095, 4096, N - 1][nd::concrete(nd::below(7)) as usize] } else { nd::concrete(nd::below(N as u8)) as usize };
    text[at] = nd::plain_byte();
    let cut = if N > 200 { [0, 1, N / 2, 1024, 4096, N - 1][nd::concrete(nd::below(6)) as usize] } else { [0, 1, N / 2, 63, 64, 65, 127, 128, 129, N - 1][nd::concrete(nd::below(10)) as usize] };
    let (a, b) = (fewer(), St { f: 1, ..DEF });
    let mut e = Expect::<N>::new();
    let mut i = 0;
    while i < N { e.push(text[i], if i < cut { a } else { b }); i += 1; }
    let s = unsafe { core::str::from_utf8_unchecked(&text) };
    let put = |w: &mut dyn stylish::Write| {
        assert!(w.write_str(&s[..cut], a.style()).is_ok() && w.write_str(&s[cut..], b.style()).is_ok(), "write succeeds");
    };
    let mut w = stylish::plain(Rec::new(e));
    put(&mut w);
    assert!(w.into_inner().complete(), "plain output is the text");
    let mut w = stylish::ansi(Strip { exp: e, seen: 0, right: true, phase: 0 });
    put(&mut w);
    match w.finish() {
        Ok(t) => assert!(t.right && t.phase == 0 && t.seen == e.len, "ANSI output without escape codes is the text"),
        Err(_) => assert!(false, "finish succeeds"),
    }
    let mut w = stylish::html(Page::new(e));
    put(&mut w);
    match w.finish() {
        Ok(p) => assert!(p.text_right && p.closed() && p.shown == e.len, "HTML output without markup is the text"),
        Err(_) => assert!(false, "finish succeeds"),
    }
}
fn fewer() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(3) } }

harnesses! {
    [8] fn q_texts() { texts::<2, 6>(St::few) }
    [8] fn q_texts_three() { texts::<3, 9>(fewer) }
    [8] fn q_streams() { streams::<2>(St::few) }
    [8] fn q_streams_three() { streams::<3>(fewer) }
    [8] fn q_ops() { texts_by::<2, 8>(4, || St { f: if nd::bool() { 16 } else { 12 }, ..DEF }, ops()) }
    [8] fn q_stream_ops() { streams_by::<2>(3, || St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(2) }, ops(), io_ops()) }
    [8] fn q_stream_ops_three() { streams_by::<3>(2, || St { f: if nd::bool() { 16 } else { 12 }, ..DEF }, [0; 3], io_ops()) }
    [8] fn q_many() { judge::<200, 202>(&Hist::longs(), [0; 200]) }
    [8] fn q_many_streams() { identical::<300, 6000>(&Hist::longs(), [0; 300], [0; 300]) }
    [8] fn q_streams_fg() { streams::<3>(foregrounds) }
    [8] fn q_streams_mixed() { streams_by::<2>(6, St::few, [0; 2], [0; 2]) }
    [8] fn q_long() { long::<160>() }
    [8] fn q_longer() { long::<4200>() }
    [8] fn t_streams() { streams::<2>(St::any) }
    [8] fn t_texts_three() { texts::<3, 9>(St::few) }
    [8] fn t_texts_four() { texts::<4, 12>(fewer) }
}
