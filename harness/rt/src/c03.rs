use crate::{model::*, nd};
use stylish::Write as _;

/// `K` writes of `L` arbitrary bytes each (`N = K * L`), every one in a style given by `pick`.
fn history<const K: usize, const L: usize, const N: usize>(pick: fn() -> St) {
    let mut exp = Expect::<N>::new();
    let mut text = [0u8; N];
    let mut style = [DEF; K];
    let mut k = 0;
    while k < K {
        style[k] = pick();
        let mut l = 0;
        while l < L {
            text[k * L + l] = nd::plain_byte();
            exp.push(text[k * L + l], style[k]);
            l += 1;
        }
        k += 1;
    }
    let mut w = stylish::ansi(Term::new(exp));
    let mut k = 0;
    while k < K {
        let s = unsafe { core::str::from_utf8_unchecked(&text[k * L..k * L + L]) };
        assert!(w.write_str(s, style[k].style()).is_ok(), "write succeeds");
        k += 1;
    }
    match w.finish() {
        Ok(t) => {
            assert!(t.wellformed && t.at_rest(), "only complete known escape codes");
            assert!(t.right && t.shown == N, "every character shown in its style");
            assert!(t.shows(DEF), "terminal left in the default style");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
/// `K` writes that may be empty or of wide characters, through the operations told.
fn mixed_by<const K: usize, const N: usize>(kinds: u8, pick: fn() -> St, by: [u8; K]) {
    judge::<K, N>(&Hist::of(kinds, pick), by)
}
fn judge<const K: usize, const N: usize>(h: &Hist<K>, by: [u8; K]) {
    let e = h.expect::<N>();
    let mut w = stylish::ansi(Term::new(e));
    h.put_by(&by, &mut w);
    match w.finish() {
        Ok(t) => {
            assert!(t.wellformed && t.at_rest(), "only complete known escape codes");
            assert!(t.right && t.shown == e.len, "every character shown in its style");
            assert!(t.shows(DEF), "terminal left in the default style");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
fn mixed<const K: usize, const N: usize>(kinds: u8, pick: fn() -> St) { mixed_by::<K, N>(kinds, pick, [0; K]) }
fn fewer() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(3) } }
harnesses! {
    [4] fn q_one() { history::<1, 4, 4>(St::any) }
    [4] fn q_two() { history::<2, 1, 2>(St::any) }
    [4] fn q_three() { history::<3, 1, 3>(St::few) }
    [4] fn q_mixed_two() { mixed::<2, 8>(6, St::few) }
    [4] fn q_mixed_three() { mixed::<3, 12>(4, fewer) }
    [4] fn q_ops_two() { mixed_by::<2, 8>(6, fewer, ops()) }
    [4] fn q_ops_three() { mixed_by::<3, 12>(3, || St { f: if nd::bool() { 16 } else { 12 }, ..DEF }, ops()) }
    [5] fn q_four() { history::<4, 1, 4>(fewer) }
    [5] fn q_long() { history::<2, 40, 80>(fewer) }
    [5] fn q_four_fg() { history::<4, 1, 4>(foregrounds) }
    [5] fn q_four_bg() { history::<4, 1, 4>(backgrounds) }
    [5] fn q_many() { judge::<300, 302>(&Hist::longs(), [0; 300]) }
    [5] fn q_longer() { history::<2, 4200, 8400>(fewer) }
    [4] fn t_two() { history::<2, 2, 4>(St::any) }
    [4] fn t_mixed_two() { mixed::<2, 8>(2, St::any) }
    [5] fn t_four() { history::<4, 1, 4>(St::few) }
    [5] fn t_mixed_four() { mixed::<4, 16>(4, fewer) }
    [5] fn t_six() { history::<6, 1, 6>(fewer) }
}
