use crate::{model::*, nd};
use stylish::{Background, Foreground, Restyle};

fn same(a: St, r: impl Restyle, want: St) {
    assert!(St::of(r.apply(a.style())) == want, "apply composes left to right");
    assert!(St::of(a.style().with(&r)) == want, "with a borrowed modification is the same");
    assert!(St::of(a.style().with(r)) == want, "with is apply");
}

fn slice<const N: usize>() {
    let a = St::any();
    let mut m = [M { kind: 4, s: DEF, h: 0 }; N];
    let mut i = 0;
    while i < N {
        m[i] = M::any();
        i += 1;
    }
    let n = nd::below(N as u8 + 1) as usize;
    let mut want = a;
    let mut i = 0;
    while i < n {
        want = m[i].model(want);
        i += 1;
    }
    same(a, &m[..n], want);
}

/// Many members of few kinds: set the foreground to a colour of the member's own, step it, swap the colours.
fn many<const N: usize>() {
    let a = St { f: nd::below(17), b: nd::below(17), i: 0 };
    let mut m = [M { kind: 4, s: DEF, h: 0 }; N];
    let n = nd::concrete(nd::below(N as u8 + 1)) as usize;
    let mut want = a;
    let mut i = 0;
    while i < n {
        m[i] = M { kind: [0, 6, 7][nd::concrete(nd::below(3)) as usize], s: St { f: i as u8, ..DEF }, h: 0 };
        want = m[i].model(want);
        i += 1;
    }
    same(a, &m[..n], want);
}
/// Members that step the foreground, but for one of any kind anywhere.
fn long<const N: usize>(n: usize) {
    let a = St { f: 3, b: 9, i: nd::below(3) };
    let mut m = [M { kind: 6, s: DEF, h: 0 }; N];
    let at = nd::u8();
    nd::assume((at as usize) < n);
    m[nd::concrete(at) as usize] = M { kind: nd::below(8), s: St { f: 14, b: 5, i: 2 }, h: 7 };
    let mut want = a;
    let mut i = 0;
    while i < n {
        want = m[i].model(want);
        i += 1;
    }
    same(a, &m[..n], want);
}
harnesses! {
    [12] fn q_many() { many::<8>() }
    [70] fn q_long() { long::<70>([4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 70][nd::concrete(nd::below(11)) as usize]) }
    [260] fn t_long() { long::<256>([128, 129, 255, 256][nd::concrete(nd::below(4)) as usize]) }
    [3] fn q_single() {
        let a = St::any();
        let s = St::any();
        same(a, Foreground(color(s.f)), St { f: s.f, ..a });
        same(a, Background(color(s.b)), St { b: s.b, ..a });
        same(a, intensity(s.i), St { i: s.i, ..a });
        same(a, s.style(), s);
        same(a, (), a);
    }
    [3] fn q_wrapped() {
        let a = St::any();
        let m = M::any();
        let want = m.model(a);
        same(a, &m, want);
        same(a, &&m, want);
        same(a, Some(m), want);
        same(a, None::<M>, a);
        #[cfg(not(feature = "no-box"))]
        {
            same(a, Box::new(m), want);
            let dynamic: Box<dyn Restyle> = Box::new(m);
            same(a, dynamic, want);
        }
        let dynamic: &dyn Restyle = &m;
        same(a, dynamic, want);
    }
    [3] fn q_pair() {
        let a = St::any();
        let (m, n) = (M::any(), M::any());
        same(a, (m, n), n.model(m.model(a)));
        same(a, (Some(m), None::<M>), m.model(a));
        same(a, ((), n), n.model(a));
    }
    [3] fn q_triple() {
        let a = St::any();
        let (l, m, n) = (M::any(), M::any(), M::any());
        same(a, (l, m, n), n.model(m.model(l.model(a))));
    }
    [3] fn q_nested() {
        let a = St::any();
        let (l, m, n) = (M::any(), M::any(), M::any());
        same(a, (l, (m, n)), n.model(m.model(l.model(a))));
        same(a, ((l, m), Some(n)), n.model(m.model(l.model(a))));
    }
    [5] fn q_slice() { slice::<3>() }
    [8] fn t_slice() { slice::<6>() }
}
