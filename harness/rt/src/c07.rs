use crate::{model::*, nd};
use stylish::Write as _;

/// Text of `K` writes of up to `L` arbitrary bytes (`N = K * L`), in an arbitrary style.
fn escaping<const K: usize, const L: usize, const N: usize>(style: St) {
    let mut exp = Expect::<N>::new();
    let mut text = [0u8; N];
    let mut len = [0usize; K];
    let mut k = 0;
    while k < K {
        len[k] = nd::below(L as u8 + 1) as usize;
        let mut l = 0;
        while l < L {
            text[k * L + l] = nd::u8();
            nd::assume(text[k * L + l] < 128);
            if l < len[k] {
                exp.push(text[k * L + l], style);
            }
            l += 1;
        }
        k += 1;
    }
    let mut w = stylish::html(Page::new(exp));
    let mut k = 0;
    while k < K {
        let s = unsafe { core::str::from_utf8_unchecked(&text[k * L..k * L + len[k]]) };
        assert!(w.write_str(s, style.style()).is_ok(), "write succeeds");
        k += 1;
    }
    match w.finish() {
        Ok(p) => {
            assert!(p.wellformed && p.closed(), "text never reads as markup");
            assert!(p.text_right && p.shown == p.exp.len, "decoding gives back the text");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
/// Writes of wide characters and ASCII ones, in changing styles, through the operations told.
fn mixed_by<const K: usize, const N: usize>(kinds: u8, by: [u8; K]) {
    judge::<K, N>(&Hist::of(kinds, || St { f: if nd::bool() { 16 } else { 12 }, ..DEF }), by)
}
fn judge<const K: usize, const N: usize>(h: &Hist<K>, by: [u8; K]) {
    let e = h.expect::<N>();
    let mut w = stylish::html(Page::new(e));
    h.put_by(&by, &mut w);
    match w.finish() {
        Ok(p) => {
            assert!(p.wellformed && p.closed(), "text never reads as markup");
            assert!(p.text_right && p.shown == e.len, "decoding gives back the text");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
fn mixed<const K: usize, const N: usize>(kinds: u8) { mixed_by::<K, N>(kinds, [0; K]) }
/// A longer text with an arbitrary byte at any place, the rest markup or plain.
fn longer<const N: usize>(at: usize, fill: u8) {
    let mut text = [fill; N];
    let b = nd::u8();
    nd::assume(b < 128);
    text[at] = b;
    let mut e = Expect::<N>::new();
    let mut n = 0;
    while n < N {
        e.push(text[n], DEF);
        n += 1;
    }
    let mut w = stylish::html(Page::new(e));
    let s = unsafe { core::str::from_utf8_unchecked(&text) };
    assert!(w.write_str(s, DEF.style()).is_ok(), "write succeeds");
    match w.finish() {
        Ok(p) => {
            assert!(p.wellformed && p.closed(), "text never reads as markup");
            assert!(p.text_right && p.shown == e.len, "decoding gives back the text");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
fn fill() -> u8 { [b'x', b'<', b'\n'][nd::concrete(nd::below(3)) as usize] }
/// A long text with two arbitrary bytes anywhere in it, written in two parts.
fn long() {
    let mut text = [b'x'; 40];
    let mut n = 0;
    while n < 2 {
        let at = nd::concrete(nd::below(40)) as usize;
        let b = nd::u8();
        nd::assume(b < 128);
        text[at] = b;
        n += 1;
    }
    let at = [0, 1, 15, 16, 17, 32, 40][nd::concrete(nd::below(7)) as usize];
    let mut e = Expect::<40>::new();
    let mut n = 0;
    while n < 40 {
        e.push(text[n], DEF);
        n += 1;
    }
    let mut w = stylish::html(Page::new(e));
    let s = unsafe { core::str::from_utf8_unchecked(&text) };
    assert!(w.write_str(&s[..at], DEF.style()).is_ok(), "write succeeds");
    assert!(w.write_str(&s[at..], DEF.style()).is_ok(), "write succeeds");
    match w.finish() {
        Ok(p) => {
            assert!(p.wellformed && p.closed(), "text never reads as markup");
            assert!(p.text_right && p.shown == e.len, "decoding gives back the text");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
harnesses! {
    [8] fn q_long() { long() }
    [8] fn q_plain() { escaping::<1, 4, 4>(DEF) }
    [8] fn q_split() { escaping::<2, 2, 4>(DEF) }
    [4] fn q_styled() { escaping::<1, 3, 3>(St { f: nd::below(17), b: nd::below(17), i: nd::below(3) }) }
    [4] fn q_mixed() { mixed::<2, 8>(6) }
    [4] fn q_mixed_three() { mixed::<3, 12>(4) }
    [5] fn q_many() { judge::<300, 302>(&Hist::longs(), [0; 300]) }
    [4] fn q_ops() { mixed_by::<2, 8>(6, ops()) }
    [4] fn q_ops_three() { mixed_by::<3, 12>(2, ops()) }
    [8] fn q_longer() { longer::<260>(nd::concrete(nd::below(130)) as usize * 2, fill()) }
    [8] fn q_longest() {
        let at = [0, 1, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8199][nd::concrete(nd::below(19)) as usize];
        longer::<8200>(at, b'x')
    }
    [8] fn t_longer() { longer::<256>(nd::concrete(nd::u8()) as usize, fill()) }
    [8] fn t_longest() {
        let at = [2047, 2048, 2049, 4095, 4096, 4097, 4199][nd::concrete(nd::below(7)) as usize];
        longer::<4200>(at, fill())
    }
    [8] fn t_plain() { escaping::<1, 6, 6>(DEF) }
    [8] fn t_split() { escaping::<3, 2, 6>(DEF) }
}
