use crate::{model::*, nd};
use core::cell::Cell;

/// Terminal that also publishes how many bytes and escape codes it has received.
struct Tap<'a, const N: usize> {
    term: Term<N>,
    bytes: &'a Cell<u32>,
    escapes: &'a Cell<u16>,
}
impl<const N: usize> core::fmt::Write for Tap<'_, N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.bytes.set(self.bytes.get() + s.len() as u32);
        self.term.bytes(s.as_bytes());
        self.escapes.set(self.term.escapes);
        Ok(())
    }
}

fn history<const K: usize>(pick: fn() -> St) { history_by::<K>(pick, [0; K]) }
fn history_by<const K: usize>(pick: fn() -> St, by: [u8; K]) {
    let mut h = Hist::<K> { text: [[0; 4]; K], len: [0; K], style: [DEF; K] };
    let mut k = 0;
    while k < K {
        h.text[k][0] = nd::plain_byte();
        h.style[k] = pick();
        h.len[k] = nd::below(2) as usize;
        k += 1;
    }
    judge::<K, K>(&h, by)
}
fn judge<const K: usize, const N: usize>(h: &Hist<K>, by: [u8; K]) {
    let (style, len) = (&h.style, &h.len);
    let (bytes, escapes) = (Cell::new(0), Cell::new(0));
    let mut w = stylish::ansi(Tap { term: Term::new(h.expect::<N>()), bytes: &bytes, escapes: &escapes });
    let mut last = DEF;
    let mut k = 0;
    while k < K {
        let s = unsafe { core::str::from_utf8_unchecked(&h.text[k][..len[k]]) };
        let (b, e) = (bytes.get(), escapes.get());
        put_by(by[k], &mut w, s, style[k]);
        if len[k] == 0 {
            assert!(bytes.get() == b, "empty text emits nothing");
        } else {
            let want = if style[k] != last { 1 } else { 0 };
            assert!(escapes.get() == e + want as u16, "one escape code exactly when the style changes");
            assert!(want == 1 || bytes.get() == b + len[k] as u32, "nothing but the text when the style stays");
            last = style[k];
        }
        k += 1;
    }
    let (b, e) = (bytes.get(), escapes.get());
    match w.finish() {
        Ok(t) => {
            let want = if last != DEF { 1 } else { 0 };
            assert!(escapes.get() == e + want as u16, "one reset at the end exactly when needed");
            assert!(want == 1 || bytes.get() == b, "nothing at the end otherwise");
            assert!(t.term.minimal, "escape codes name only what changes");
            assert!(t.term.right && t.term.wellformed, "output is faithful");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
fn fewer() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(3) } }
harnesses! {
    [4] fn q_one() { history::<1>(St::any) }
    [4] fn q_two() { history::<2>(St::any) }
    [4] fn q_three() { history::<3>(St::few) }
    [5] fn q_four() { history::<4>(fewer) }
    [5] fn q_four_fg() { history::<4>(foregrounds) }
    [5] fn q_four_bg() { history::<4>(backgrounds) }
    [4] fn q_mixed() { judge::<2, 8>(&Hist::of(6, St::few), [0; 2]) }
    [4] fn q_mixed_three() { judge::<3, 12>(&Hist::of(4, fewer), [0; 3]) }
    [5] fn q_many() { judge::<300, 302>(&Hist::longs(), [0; 300]) }
    [4] fn q_ops_two() { history_by::<2>(St::few, ops()) }
    [4] fn q_ops_three() { history_by::<3>(fewer, ops()) }
    [5] fn t_four() { history::<4>(St::few) }
    [5] fn t_six() { history::<6>(fewer) }
}
