use crate::{model::*, nd};

/// `K` writes of at most one byte, each in a style given by `pick`.
fn history<const K: usize>(empties: bool, pick: fn() -> St) { history_by::<K>(empties, pick, [0; K]) }
fn history_by<const K: usize>(empties: bool, pick: fn() -> St, by: [u8; K]) {
    let mut h = Hist::<K> { text: [[0; 4]; K], len: [1; K], style: [DEF; K] };
    let mut k = 0;
    while k < K {
        let c = nd::u8();
        // Letters only here: escaping is C07.
        nd::assume(c >= b'a' && c <= b'z');
        h.text[k][0] = c;
        h.style[k] = pick();
        if empties {
            h.len[k] = nd::below(2) as usize;
        }
        k += 1;
    }
    judge::<K, K>(&h, by)
}
fn judge<const K: usize, const N: usize>(h: &Hist<K>, by: [u8; K]) {
    let (mut runs, mut last, mut k) = (0, DEF, 0);
    while k < K {
        if h.len[k] > 0 {
            if h.style[k] != last && h.style[k] != DEF {
                runs += 1;
            }
            last = h.style[k];
        }
        k += 1;
    }
    let mut w = stylish::html(Page::new(h.expect::<N>()));
    h.put_by(&by, &mut w);
    match w.finish() {
        Ok(p) => {
            assert!(p.wellformed, "only flat known elements with non-default declarations");
            assert!(p.closed(), "every element is closed");
            assert!(p.text_right && p.shown == p.exp.len, "every character reaches the reader");
            assert!(p.style_right, "every character carries its style");
            assert!(p.opened == runs, "one element per run of equally styled text");
        }
        Err(_) => assert!(false, "finish succeeds"),
    }
}
/// Every foreground with a few backgrounds and every intensity, and the other way round.
fn fg() -> St { St { f: nd::below(17), ..St::few() } }
fn bg() -> St { St { b: nd::below(17), ..St::few() } }
fn fewer() -> St { St { f: if nd::bool() { 16 } else { 12 }, b: 16, i: nd::below(3) } }
harnesses! {
    [4] fn q_one() { history::<1>(true, St::any) }
    [4] fn q_two_fg() { history::<2>(false, fg) }
    [4] fn q_two_bg() { history::<2>(false, bg) }
    [4] fn q_two_empty() { history::<2>(true, St::few) }
    [4] fn q_three() { history::<3>(true, fewer) }
    [4] fn q_three_few() { history::<3>(false, St::few) }
    [4] fn q_three_fg() { history::<3>(false, foregrounds) }
    [4] fn q_three_bg() { history::<3>(false, backgrounds) }
    [4] fn q_mixed() { judge::<2, 8>(&Hist::of(6, fewer), [0; 2]) }
    [5] fn q_many() { judge::<300, 302>(&Hist::longs(), [0; 300]) }
    [4] fn q_ops_two() { history_by::<2>(true, fewer, ops()) }
    [4] fn q_ops_three() { history_by::<3>(true, || St { f: if nd::bool() { 16 } else { 12 }, ..DEF }, ops()) }
    [4] fn t_two() { history::<2>(false, St::any) }
    [4] fn t_three() { history::<3>(true, St::few) }
    [4] fn t_four() { history::<4>(true, fewer) }
    [4] fn t_five() { history::<5>(false, fewer) }
}
