// Generated by bin/gencorpus.py.
use super::*;
pub static ROWS: &[Row] = &[
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 14], [Lit(123), Lit(97), Lit(125), Arg(14), Lit(32), Arg(2), Arg(0), Lit(195), Lit(169), Arg(14), Lit(123), Arg(1), Lit(120)], "{{a}}{foo_1} {2:}{:s}é{foo_1:3}{{{:s}x", [t(0)][0], &&t(1), { let c = t(2); c }, foo_1 = unsafe { t(14) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 17 13], [Lit(120), Arg(0), Lit(120), Arg(31), Lit(32), Arg(2), Lit(123), Lit(125), Arg(17), Lit(48), Lit(125), Arg(1), Lit(10), Arg(26), Lit(48), Lit(125), Arg(13), Lit(125)], "x{:s}x{a1 } {2:s}{{}}{A:}0}}{ }\n{_x:?}0}}{b:?}}}", !t(0), if yes() { t(1) } else { Ch(0) }, { t(2) }, A = (|| t(17))(), b = loop { break t(13) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 12 18], [Lit(32), Bold(0), Lit(125), Bold(12), Lit(10), Arg(2), Lit(226), Lit(130), Lit(172), Arg(4), Lit(226), Lit(130), Lit(172), Arg(3), Lit(125), Arg(18), Lit(48), Lit(125), Arg(1), Lit(120)], " {0:(bold)}}}{a:(bold)}\n{2:}\u{20ac}{4:?}\u{20ac}{3 }}}{ab}0}}{1}x", unsafe { t(0) }, unsafe { t(1) }, Ch(0) + t(2), match t(3) { c => c }, t(4) | Ch(0), a = id(t(12)), ab = match t(18) { c => c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(32), Arg(31), Lit(123), Lit(125), Arg(30), Lit(32), Arg(32), Lit(195), Lit(169), Arg(30), Lit(120), Arg(0)], " {a1}{{}}{a_:s} {é}é{a_:?  }x{}", Ch(0) + t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 20 21], [Lit(125), Arg(30), Lit(123), Lit(125), Arg(23), Lit(120), Arg(21), Lit(48), Lit(125), Arg(20), Lit(123), Lit(125), Arg(23), Lit(123), Lit(97), Lit(125), Bold(0), Lit(123), Lit(125), Arg(24), Lit(120)], "}}{a_:s}{{}}{a:?}x{é:?}0}}{a1:s}{{}}{a:?}{{a}}{0:(bold)}{{}}{b}x", -t(0), a1 = t(20).me(), é = { t(21) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12 16 15], [Lit(125), Arg(15), Lit(32), Arg(12), Lit(32), Arg(31), Lit(120), Arg(12), Bold(25), Lit(195), Lit(169), Arg(16), Lit(48), Lit(125), Arg(28)], "}}{_x:s} {a:3} {a1}x{a:}{foo_1:(bold)}é{Zed }0}}{A:3}", a = !t(12), Zed = { let c = t(16); c }, _x = t(15) | Ch(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Lit(123), Lit(97), Lit(125), Arg(14), Arg(14), Lit(120)], "{{a}}{foo_1:}{foo_1 }x", foo_1 = { t(14) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 22], [Arg(2), Lit(48), Lit(125), Arg(29), Lit(10), Bold(0), Lit(10), Arg(22), Lit(32), Arg(1), Lit(10)], "{2}0}}{ab:}\n{0:(bold)}\n{type:3} {1:}\n", t(0) | Ch(0), (t(1), 1).0, { t(2) }, r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Lit(226), Lit(130), Lit(172)], "\u{20ac}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(123), Lit(125), Arg(31), Lit(123), Arg(1), Lit(195), Lit(169), Arg(2), Arg(29), Arg(0), Lit(32), Arg(2), Lit(120), Arg(30), Lit(125)], "{{}}{a1:s}{{{1:}é{2:s}{ab:?  }{:?  } {2:s}x{a_:?}}}", !t(0), (|| t(1))(), match t(2) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 14], [Lit(123), Arg(1), Arg(3), Lit(48), Lit(125), Arg(2), Lit(226), Lit(130), Lit(172), Arg(30), Lit(125), Arg(31), Arg(14), Arg(0), Lit(32), Arg(3), Lit(123), Lit(97), Lit(125), Arg(24), Lit(226), Lit(130), Lit(172)], "{{{1:s}{3 }0}}{2:?  }\u{20ac}{a_}}}{a1:3}{foo_1:?  }{:} {3:}{{a}}{b}\u{20ac}", t(0) << 0, (|| t(1))(), (t(2), 1).0, [t(3)][0], foo_1 = &&t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(120), Arg(0), Lit(48), Lit(125)], "x{0:?}0}}", &t(0),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3], [Lit(123), Bold(2), Lit(226), Lit(130), Lit(172), Arg(3), Lit(123), Lit(97), Lit(125), Arg(1), Lit(48), Lit(125), Arg(0), Lit(32)], "{{{2:(bold)}\u{20ac}{3:?}{{a}}{1:s}0}}{} ", if yes() { t(0) } else { Ch(0) }, if yes() { t(1) } else { Ch(0) }, match t(2) { c => c }, t(3) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14 20 12], [Lit(195), Lit(169), Arg(14), Lit(32), Bold(20), Lit(123), Lit(125), Arg(12), Lit(125), Bold(28), Lit(123), Lit(125), Arg(32), Lit(195), Lit(169)], "é{foo_1:?  } {a1:(bold)}{{}}{a}}}{A:(bold)}{{}}{é}é", foo_1 = (|| t(14))(), a1 = t(20) | Ch(0), a = t(12),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 18 19], [Lit(10), Arg(18), Lit(123), Lit(125), Arg(4), Lit(32), Arg(3), Lit(125), Arg(19), Lit(226), Lit(130), Lit(172), Arg(1), Lit(123), Lit(97), Lit(125), Arg(2), Arg(0), Lit(123), Lit(125)], "\n{ab:?}{{}}{4:?  } {3}}}{a_}\u{20ac}{1}{{a}}{2:}{:?  }{{}}", loop { break t(0) }, id(t(1)), Ch(0) + t(2), match t(3) { c => c }, t(4), ab = match t(18) { c => c }, a_ = match t(19) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Lit(195), Lit(169), Arg(29), Lit(123)], "é{ab:?  }{{"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(226), Lit(130), Lit(172), Arg(0)], "\u{20ac}{0:}", (|| t(0))()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 15], [Lit(125), Arg(30), Arg(2), Lit(195), Lit(169), Arg(15), Lit(48), Lit(125), Arg(30), Arg(0), Lit(123), Lit(125), Arg(15), Lit(226), Lit(130), Lit(172), Arg(15), Lit(125), Arg(1), Lit(120), Bold(3)], "}}{a_:s}{2}é{_x }0}}{a_}{:?  }{{}}{_x:}\u{20ac}{_x }}}{ }x{3:(bold)}", t(0), &&t(1), { t(2) }, *&t(3), _x = (t(15), 1).0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14 12], [Lit(123), Lit(125), Arg(26), Lit(120), Bold(14), Lit(120), Bold(12), Lit(226), Lit(130), Lit(172)], "{{}}{_x}x{foo_1:(bold)}x{a:(bold)}\u{20ac}", foo_1 = id(t(14)), a = *&t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 14 18 12], [Lit(123), Lit(125), Arg(18), Lit(32), Arg(28), Lit(10), Arg(0), Lit(123), Lit(125), Arg(30), Lit(48), Lit(125), Arg(14), Arg(14), Lit(195), Lit(169), Arg(27), Lit(10), Arg(12), Lit(226), Lit(130), Lit(172)], "{{}}{ab:3} {A}\n{:?}{{}}{a_:}0}}{foo_1:?  }{foo_1 }é{Zed}\n{a:?  }\u{20ac}", t(0).me(), foo_1 = if yes() { t(14) } else { Ch(0) }, ab = { let c = t(18); c }, a = &t(12),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Lit(125), Arg(27), Lit(48), Lit(125), Arg(28), Arg(25), Lit(123), Lit(125), Arg(1), Lit(123), Lit(97), Lit(125), Arg(0), Lit(48), Lit(125), Arg(0), Lit(125)], "}}{Zed:3}0}}{A:3}{foo_1:3}{{}}{1:?}{{a}}{0:?}0}}{0:3}}}", &t(0), &t(1),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20 18], [Lit(48), Lit(125), Arg(28), Arg(18), Lit(10), Arg(20)], "0}}{A }{ab:?  }\n{a1:?  }", a1 = &t(20), ab = &&t(18),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(125), Arg(0), Lit(195), Lit(169)], "}}{0 }é", &t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Lit(226), Lit(130), Lit(172), Arg(25), Lit(125), Arg(25), Arg(25), Arg(31)], "\u{20ac}{foo_1 }}}{foo_1 }{foo_1:?}{a1 }"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 13 18 14], [Lit(123), Lit(97), Lit(125), Bold(18), Lit(123), Arg(14), Lit(123), Lit(97), Lit(125), Arg(13), Lit(123), Arg(0), Lit(48), Lit(125)], "{{a}}{ab:(bold)}{{{foo_1 }{{a}}{b:}{{{0:?}0}}", t(0) << 0, b = unsafe { t(13) }, ab = { t(18) }, foo_1 = t(14) << 0,),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 14 18 20], [Lit(195), Lit(169), Arg(14), Lit(10), Arg(23), Lit(48), Lit(125), Arg(2), Lit(226), Lit(130), Lit(172), Arg(14), Lit(123), Lit(97), Lit(125), Arg(18), Lit(123), Lit(125), Bold(3), Lit(125), Arg(20), Arg(1), Lit(32), Arg(0), Lit(123)], "é{foo_1:?}\n{a:s}0}}{2:?  }\u{20ac}{foo_1}{{a}}{ab:}{{}}{3:(bold)}}}{a1 }{1:3} {0}{{", &t(0), Ch(0) + t(1), t(2).me(), t(3), foo_1 = { t(14) }, ab = { t(18) }, a1 = *&t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 14 19 20], [Lit(226), Lit(130), Lit(172), Bold(14), Arg(0), Lit(123), Lit(125), Arg(19), Lit(48), Lit(125), Arg(20), Lit(120)], "\u{20ac}{foo_1:(bold)}{:3}{{}}{a_}0}}{a1:?}x", if yes() { t(0) } else { Ch(0) }, foo_1 = *&t(14), a_ = unsafe { t(19) }, a1 = if yes() { t(20) } else { Ch(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 16 19 21], [Lit(123), Lit(125), Arg(3), Arg(16), Lit(48), Lit(125), Arg(3), Lit(125), Arg(31), Lit(48), Lit(125), Bold(19), Arg(0), Lit(195), Lit(169), Arg(2), Lit(123), Lit(97), Lit(125), Arg(21), Lit(10), Bold(3), Arg(23), Lit(226), Lit(130), Lit(172), Arg(1)], "{{}}{3:?  }{Zed }0}}{3:s}}}{a1}0}}{a_:(bold)}{0:s}é{2}{{a}}{é:}\n{3:(bold)}{a:s}\u{20ac}{1:3}", (|| t(0))(), if yes() { t(1) } else { Ch(0) }, Ch::from(t(2).0 as u8), (|| t(3))(), Zed = &t(16), a_ = !t(19), é = if yes() { t(21) } else { Ch(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 15 16], [Lit(125), Arg(1), Arg(15), Lit(226), Lit(130), Lit(172), Arg(15), Lit(123), Arg(16), Lit(123), Lit(125), Arg(23), Lit(195), Lit(169), Arg(0), Lit(120), Arg(1), Lit(32), Arg(0), Lit(226), Lit(130), Lit(172), Arg(2), Lit(32)], "}}{1:s}{_x:?  }\u{20ac}{_x:?}{{{Zed}{{}}{a:3}é{:s}x{:?  } {0}\u{20ac}{:3} ", loop { break t(0) }, [t(1)][0], (|| t(2))(), _x = *&t(15), Zed = &&t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(125), Arg(25), Lit(48), Lit(125), Arg(0), Lit(120), Arg(24)], "}}{foo_1:?}0}}{:?  }x{b}", Ch::from(t(0).0 as u8)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 18 21], [Bold(1), Lit(123), Lit(97), Lit(125), Arg(0), Lit(123), Lit(97), Lit(125), Bold(21), Lit(120), Arg(18), Lit(48), Lit(125), Arg(3), Lit(226), Lit(130), Lit(172), Arg(26), Lit(123), Lit(125), Arg(23), Arg(2), Lit(226), Lit(130), Lit(172)], "{1:(bold)}{{a}}{0}{{a}}{é:(bold)}x{ab:3}0}}{3:3}\u{20ac}{_x:?  }{{}}{a:}{2:?}\u{20ac}", -t(0), loop { break t(1) }, t(2) << 0, *&t(3), ab = t(18) & Ch(127), é = id(t(21))),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 19 20], [Lit(32), Arg(19), Bold(32), Arg(20), Lit(125), Arg(3), Lit(32), Bold(26), Arg(1), Arg(2), Lit(48), Lit(125), Arg(0), Lit(195), Lit(169), Arg(19), Lit(120), Arg(1)], " {a_:}{é:(bold)}{a1:}}}{3:s} {_x:(bold)}{1 }{2:}0}}{:3}é{a_:3}x{:3}", t(0), (t(1), 1).0, match t(2) { c => c }, [t(3)][0], a_ = { t(19) }, a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 15 14], [Arg(14), Lit(32), Arg(15), Lit(123), Lit(97), Lit(125), Arg(15), Lit(32), Arg(0), Arg(27), Lit(48), Lit(125), Arg(14), Lit(195), Lit(169), Arg(30), Lit(32)], "{foo_1 } {_x}{{a}}{_x:s} {0:?}{Zed }0}}{foo_1}é{a_} ", loop { break t(0) }, _x = t(15).me(), foo_1 = match t(14) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(10), Arg(24), Lit(120), Arg(29), Lit(48), Lit(125), Arg(32), Lit(123), Lit(125), Arg(0), Lit(195), Lit(169), Arg(2), Lit(10), Arg(1), Lit(226), Lit(130), Lit(172), Bold(3), Lit(32), Arg(4), Arg(26)], "\n{b:s}x{ab:3}0}}{é:?}{{}}{0}é{2:3}\n{1}\u{20ac}{3:(bold)} {4:s}{_x:3}", { let c = t(0); c }, &t(1), t(2) | Ch(0), [t(3)][0], Ch::from(t(4).0 as u8),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0)], "{1}{0:}", t(0) << 0, if yes() { t(1) } else { Ch(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(10), Arg(24), Lit(123), Arg(2), Arg(1), Lit(123), Lit(97), Lit(125), Bold(27), Lit(10), Arg(0), Arg(1), Lit(32), Arg(31), Lit(32)], "\n{b:}{{{2:}{1}{{a}}{Zed:(bold)}\n{0:?  }{1} {a1:} ", Ch(0) + t(0), loop { break t(1) }, loop { break t(2) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 15], [Lit(123), Lit(97), Lit(125), Arg(1), Lit(195), Lit(169), Arg(23), Arg(15), Arg(3), Lit(123), Lit(97), Lit(125), Arg(0), Lit(195), Lit(169), Arg(2), Lit(195), Lit(169)], "{{a}}{1 }é{a:s}{_x}{3}{{a}}{0:s}é{2}é", loop { break t(0) }, t(1) & Ch(127), !t(2), (t(3), 1).0, _x = &&t(15),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14 17 16], [Lit(125), Arg(29), Lit(123), Lit(125), Arg(16), Lit(123), Lit(97), Lit(125), Arg(14), Bold(30), Lit(123), Bold(17), Arg(24), Lit(48), Lit(125), Arg(26), Lit(195), Lit(169)], "}}{ab:?  }{{}}{Zed:}{{a}}{foo_1:}{a_:(bold)}{{{A:(bold)}{b:?  }0}}{_x:?  }é", foo_1 = Ch(0) + t(14), A = t(17) << 0, Zed = unsafe { t(16) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [22], [Lit(120), Arg(24), Arg(30), Arg(28), Lit(226), Lit(130), Lit(172), Arg(22), Lit(123), Lit(97), Lit(125), Arg(26), Lit(123), Lit(125)], "x{b:}{a_}{A }\u{20ac}{type:}{{a}}{_x:}{{}}", r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 16 15 12 22], [Lit(123), Lit(97), Lit(125), Arg(15), Lit(10), Arg(1), Lit(123), Lit(97), Lit(125), Bold(0), Lit(123), Lit(97), Lit(125), Bold(16), Lit(123), Lit(97), Lit(125), Arg(2), Lit(195), Lit(169), Arg(28), Lit(120), Arg(12), Lit(120), Arg(3), Lit(123), Lit(97), Lit(125), Arg(22), Lit(125)], "{{a}}{_x:s}\n{1}{{a}}{0:(bold)}{{a}}{Zed:(bold)}{{a}}{2 }é{A:?}x{a:}x{3:?}{{a}}{type:s}}}", Ch(0) + t(0), -t(1), match t(2) { c => c }, Ch(0) + t(3), Zed = { let c = t(16); c }, _x = Ch(0) + t(15), a = t(12).me(), r#type = t(22),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18 17], [Arg(17), Arg(17), Lit(123), Lit(97), Lit(125), Arg(32), Arg(32), Lit(123), Lit(125), Arg(30), Lit(32), Arg(18)], "{A:?}{A}{{a}}{é }{é }{{}}{a_:?  } {ab}", ab = { let c = t(18); c }, A = id(t(17))),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(123), Lit(125), Arg(3), Lit(123), Arg(23), Lit(48), Lit(125), Arg(29), Lit(32), Arg(1), Lit(48), Lit(125), Arg(2), Lit(10), Arg(4), Lit(125), Bold(0), Lit(32)], "{{}}{3:?}{{{a:}0}}{ab:} {1:?  }0}}{2:?  }\n{4 }}}{:(bold)} ", t(0).me(), t(1) & Ch(127), *&t(2), !t(3), *&t(4)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Bold(23), Lit(125)], "{a:(bold)}}}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20 12 16 22], [Lit(10), Arg(16), Lit(226), Lit(130), Lit(172), Arg(12), Lit(120), Arg(16), Lit(10), Bold(22), Lit(123), Lit(125), Arg(20), Lit(10)], "\n{Zed}\u{20ac}{a:3}x{Zed:?}\n{type:(bold)}{{}}{a1:}\n", a1 = &t(20), a = t(12) | Ch(0), Zed = !t(16), r#type = t(22),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12 21], [Lit(123), Bold(30), Lit(10), Arg(0), Lit(195), Lit(169), Arg(1), Lit(195), Lit(169), Arg(1), Lit(120), Arg(21), Arg(12), Lit(48), Lit(125), Arg(1), Lit(32), Arg(1), Lit(125)], "{{{a_:(bold)}\n{0}é{1}é{1}x{é:?  }{a }0}}{1 } {1}}}", (t(0), 1).0, &t(1), a = &&t(12), é = &&t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(120), Arg(0), Bold(2), Lit(10), Arg(1), Lit(123)], "x{0:?}{2:(bold)}\n{1:?}{{", Ch::from(t(0).0 as u8), id(t(1)), t(2) << 0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 21], [Lit(32), Arg(0), Lit(123), Lit(125), Arg(21), Lit(48), Lit(125), Arg(21), Lit(32)], " {:}{{}}{é:3}0}}{é:3} ", if yes() { t(0) } else { Ch(0) }, é = *&t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Lit(123), Arg(31), Lit(195), Lit(169), Arg(0), Lit(123), Lit(125), Bold(30), Lit(195), Lit(169), Arg(29), Lit(125), Arg(12), Lit(125), Arg(12), Lit(32)], "{{{a1}é{0}{{}}{a_:(bold)}é{ab:s}}}{a:?  }}}{a} ", t(0) << 0, a = match t(12) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Lit(123), Arg(0), Lit(32), Arg(28), Lit(48), Lit(125), Arg(28), Arg(1), Lit(123)], "{{{0:} {A:s}0}}{A:?  }{1}{{", t(0) << 0, if yes() { t(1) } else { Ch(0) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 21], [Arg(1), Lit(10), Bold(2), Lit(123), Lit(125), Arg(0), Lit(32), Bold(31), Lit(123), Lit(125), Bold(21), Lit(10), Arg(27), Lit(123), Lit(125)], "{1 }\n{2:(bold)}{{}}{0:} {a1:(bold)}{{}}{é:(bold)}\n{Zed:?  }{{}}", Ch::from(t(0).0 as u8), *&t(1), t(2).me(), é = t(21) | Ch(0),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 19 15 12], [Arg(3), Lit(125), Arg(19), Lit(123), Lit(125), Arg(15), Lit(123), Lit(97), Lit(125), Bold(1), Lit(120), Arg(12), Arg(0), Lit(123), Lit(125), Arg(4), Lit(48), Lit(125), Arg(2), Lit(123), Lit(97), Lit(125)], "{3}}}{a_}{{}}{_x }{{a}}{1:(bold)}x{a:3}{0:?}{{}}{4:3}0}}{2:}{{a}}", -t(0), !t(1), loop { break t(2) }, *&t(3), loop { break t(4) }, a_ = match t(19) { c => c }, _x = { t(15) }, a = !t(12),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 21 18], [Arg(21), Lit(125), Arg(18), Arg(1), Lit(48), Lit(125), Arg(4), Lit(10), Arg(0), Lit(10), Arg(2), Lit(195), Lit(169), Bold(3), Lit(120), Arg(3)], "{é}}}{ab:s}{1:}0}}{4:3}\n{0:}\n{2:3}é{3:(bold)}x{3 }", t(0) & Ch(127), t(1).me(), *&t(2), unsafe { t(3) }, Ch::from(t(4).0 as u8), é = *&t(21), ab = { t(18) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Lit(10), Arg(28), Lit(123), Lit(125), Bold(21), Lit(10), Arg(23), Lit(32), Arg(21), Lit(48), Lit(125), Bold(27), Lit(120)], "\n{A }{{}}{é:(bold)}\n{a} {é:?}0}}{Zed:(bold)}x", é = Ch::from(t(21).0 as u8),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 18 12], [Lit(226), Lit(130), Lit(172), Bold(0), Lit(123), Lit(125), Arg(12), Lit(123), Arg(24), Lit(226), Lit(130), Lit(172), Arg(18), Lit(32)], "\u{20ac}{0:(bold)}{{}}{a:?  }{{{b:?  }\u{20ac}{ab:?} ", *&t(0), ab = Ch::from(t(18).0 as u8), a = unsafe { t(12) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14 16], [Lit(123), Lit(97), Lit(125), Arg(30), Lit(123), Lit(97), Lit(125), Arg(16), Lit(10), Bold(30), Lit(195), Lit(169), Arg(26), Arg(32), Lit(125), Arg(14), Lit(195), Lit(169)], "{{a}}{a_:?}{{a}}{Zed }\n{a_:(bold)}é{_x:?  }{é:?}}}{foo_1}é", foo_1 = (t(14), 1).0, Zed = [t(16)][0]),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12 17 16], [Lit(10), Arg(0), Arg(16), Lit(10), Arg(12), Lit(226), Lit(130), Lit(172), Bold(17), Lit(226), Lit(130), Lit(172)], "\n{:}{Zed:?}\n{a}\u{20ac}{A:(bold)}\u{20ac}", t(0), a = { let c = t(12); c }, A = id(t(17)), Zed = (t(16), 1).0,),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(120), Arg(2), Lit(120), Arg(2), Arg(0), Lit(195), Lit(169), Arg(1), Lit(125), Bold(28), Lit(123), Lit(97), Lit(125), Arg(2), Lit(48), Lit(125), Arg(30), Lit(123)], "x{2:3}x{2:s}{:3}é{:?}}}{A:(bold)}{{a}}{}0}}{a_:}{{", Ch::from(t(0).0 as u8), Ch::from(t(1).0 as u8), t(2).me()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(123), Lit(97), Lit(125), Arg(0), Arg(24), Lit(10), Arg(1), Lit(120), Arg(2), Lit(10)], "{{a}}{0}{b:?  }\n{1:}x{2}\n", match t(0) { c => c }, { let c = t(1); c }, if yes() { t(2) } else { Ch(0) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Lit(32), Arg(13), Lit(123), Lit(125), Arg(13)], " {b:s}{{}}{b:s}", b = &&t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19 17], [Lit(120), Arg(27), Lit(123), Lit(125), Arg(17), Lit(123), Lit(125), Arg(23), Arg(19)], "x{Zed:s}{{}}{A:}{{}}{a}{a_:s}", a_ = t(19).me(), A = match t(17) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(27), Lit(123), Lit(125), Arg(2), Lit(195), Lit(169), Arg(0), Lit(10), Arg(1), Lit(123), Lit(97), Lit(125), Arg(26), Lit(226), Lit(130), Lit(172)], "{Zed}{{}}{2 }é{0}\n{1:?}{{a}}{_x:}\u{20ac}", { t(0) }, match t(1) { c => c }, if yes() { t(2) } else { Ch(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 17 21 15], [Lit(120), Arg(30), Lit(195), Lit(169), Arg(21), Lit(120), Arg(0), Lit(10), Arg(27), Bold(17), Lit(125), Arg(15), Lit(32), Arg(17), Lit(32), Arg(21), Lit(48), Lit(125)], "x{a_:?  }é{é:?  }x{:}\n{Zed:?  }{A:(bold)}}}{_x:s} {A:s} {é}0}}", -t(0), A = { let c = t(17); c }, é = unsafe { t(21) }, _x = [t(15)][0]),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 19 13 16], [Lit(48), Lit(125), Arg(2), Lit(120), Arg(16), Lit(195), Lit(169), Arg(13), Lit(10), Arg(0), Arg(2), Lit(123), Lit(125), Arg(13), Arg(19), Arg(25), Lit(125), Arg(1), Lit(123), Arg(3), Arg(16), Lit(123), Lit(97), Lit(125)], "0}}{2:s}x{Zed:?}é{b:3}\n{:s}{2:?}{{}}{b:s}{a_:s}{foo_1:3}}}{1:s}{{{3:s}{Zed:3}{{a}}", !t(0), t(1).me(), &t(2), -t(3), a_ = (|| t(19))(), b = t(13) | Ch(0), Zed = *&t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(125), Arg(2), Arg(1), Lit(125), Arg(32), Lit(123), Arg(0), Lit(32)], "}}{2:?}{1:}}}{é:?}{{{0:3} ", { let c = t(0); c }, t(1).me(), { let c = t(2); c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 14 12 20], [Arg(0), Lit(195), Lit(169), Bold(12), Lit(10), Arg(12), Arg(20), Lit(120), Arg(1), Lit(123), Lit(125), Arg(14), Lit(120), Arg(2), Lit(226), Lit(130), Lit(172)], "{0:}é{a:(bold)}\n{a}{a1:}x{1}{{}}{foo_1:?  }x{2}\u{20ac}", [t(0)][0], t(1) | Ch(0), { t(2) }, foo_1 = t(14) & Ch(127), a = [t(12)][0], a1 = !t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(120), Arg(4), Lit(120), Arg(3), Lit(123), Arg(1), Lit(123), Lit(125), Arg(23), Lit(120), Bold(2), Lit(125), Arg(1), Lit(226), Lit(130), Lit(172), Arg(0), Lit(123)], "x{4:s}x{3:s}{{{1 }{{}}{a:3}x{2:(bold)}}}{1:}\u{20ac}{0:}{{", t(0).me(), { t(1) }, t(2) & Ch(127), { let c = t(3); c }, (|| t(4))()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Lit(32), Arg(32), Lit(120), Bold(32), Lit(226), Lit(130), Lit(172), Arg(1), Lit(120), Arg(2), Lit(123), Arg(0), Arg(12), Lit(10), Arg(12), Lit(125), Arg(32), Lit(123)], " {é:?  }x{é:(bold)}\u{20ac}{1:}x{2:s}{{{:?  }{a:?  }\n{a:?  }}}{é:3}{{", t(0) << 0, *&t(1), Ch(0) + t(2), a = loop { break t(12) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 16], [Lit(226), Lit(130), Lit(172), Arg(16), Lit(123), Lit(125), Arg(0), Bold(28), Lit(32)], "\u{20ac}{Zed}{{}}{0:3}{A:(bold)} ", t(0) | Ch(0), Zed = Ch::from(t(16).0 as u8)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(120), Bold(2), Lit(123), Lit(97), Lit(125), Bold(1), Lit(123), Arg(0), Lit(48), Lit(125)], "x{2:(bold)}{{a}}{1:(bold)}{{{0:3}0}}", t(0) & Ch(127), Ch(0) + t(1), t(2) << 0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 15 13], [Lit(125), Arg(0), Lit(48), Lit(125), Arg(13), Lit(195), Lit(169), Arg(30), Lit(125), Arg(31), Lit(195), Lit(169), Arg(1), Arg(15), Lit(48), Lit(125)], "}}{:s}0}}{b:}é{a_:?}}}{a1:}é{1:?  }{_x}0}}", t(0) & Ch(127), &&t(1), _x = t(15) << 0, b = t(13) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 18 20], [Lit(48), Lit(125), Arg(2), Lit(48), Lit(125), Arg(18), Lit(123), Arg(1), Lit(125), Arg(25), Lit(10), Arg(0), Lit(125), Arg(25), Lit(125), Arg(25), Lit(123), Lit(97), Lit(125), Arg(28), Lit(123), Lit(125), Arg(20), Lit(123)], "0}}{2 }0}}{ab:}{{{1:s}}}{foo_1}\n{0}}}{foo_1}}}{foo_1 }{{a}}{A:3}{{}}{a1}{{", { let c = t(0); c }, t(1) & Ch(127), t(2) & Ch(127), ab = { let c = t(18); c }, a1 = if yes() { t(20) } else { Ch(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 21 19], [Arg(28), Lit(195), Lit(169), Arg(19), Lit(123), Lit(97), Lit(125), Arg(2), Lit(195), Lit(169), Arg(0), Lit(123), Arg(1), Lit(226), Lit(130), Lit(172), Arg(1), Lit(123), Arg(21), Lit(123)], "{A}é{a_:3}{{a}}{2 }é{0:s}{{{1 }\u{20ac}{1 }{{{é:?  }{{", &t(0), (|| t(1))(), unsafe { t(2) }, é = loop { break t(21) }, a_ = t(19) | Ch(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(226), Lit(130), Lit(172), Arg(0), Lit(120), Arg(2), Lit(48), Lit(125), Arg(1), Lit(123)], "\u{20ac}{:s}x{2:}0}}{}{{", (t(0), 1).0, Ch::from(t(1).0 as u8), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 14 15], [Lit(10), Arg(14), Lit(125), Arg(15), Lit(48), Lit(125), Arg(0), Lit(48), Lit(125), Arg(1), Arg(2), Lit(125)], "\n{foo_1 }}}{_x}0}}{0:3}0}}{1}{2}}}", t(0) << 0, id(t(1)), loop { break t(2) }, foo_1 = match t(14) { c => c }, _x = unsafe { t(15) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 17], [Lit(123), Arg(0), Lit(226), Lit(130), Lit(172), Arg(2), Lit(120), Arg(1), Lit(10), Arg(17), Lit(10)], "{{{:}\u{20ac}{2:s}x{:s}\n{A:3}\n", if yes() { t(0) } else { Ch(0) }, id(t(1)), (|| t(2))(), A = (t(17), 1).0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 15 13 12 22], [Lit(195), Lit(169), Arg(13), Lit(125), Arg(0), Arg(12), Lit(48), Lit(125), Arg(15), Lit(226), Lit(130), Lit(172), Arg(25), Lit(195), Lit(169), Arg(27), Lit(195), Lit(169), Arg(22), Lit(125)], "é{b:3}}}{0:}{a}0}}{_x}\u{20ac}{foo_1:s}é{Zed:s}é{type:?}}}", { t(0) }, _x = (|| t(15))(), b = t(13) | Ch(0), a = Ch::from(t(12).0 as u8), r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 19 20 15], [Lit(10), Arg(19), Lit(123), Bold(24), Lit(123), Lit(125), Arg(20), Lit(10), Arg(1), Lit(226), Lit(130), Lit(172), Arg(15), Arg(0), Lit(10), Arg(2), Lit(10)], "\n{a_:?  }{{{b:(bold)}{{}}{a1}\n{1:s}\u{20ac}{_x:?  }{ }\n{2}\n", { t(0) }, &&t(1), (t(2), 1).0, a_ = (|| t(19))(), a1 = (|| t(20))(), _x = [t(15)][0]),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(123), Lit(125), Arg(23), Lit(123), Lit(125), Arg(0), Lit(123), Arg(25), Lit(195), Lit(169), Arg(1), Lit(32), Arg(2), Lit(123), Arg(2), Arg(28), Lit(125)], "{{}}{a}{{}}{:?}{{{foo_1:?  }é{} { }{{{2:?}{A:?  }}}", t(0).me(), !t(1), id(t(2)),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17 19 21], [Lit(10), Arg(17), Lit(123), Arg(26), Lit(120), Arg(21), Lit(195), Lit(169), Arg(21), Lit(32), Bold(25), Lit(123), Lit(125), Arg(19), Lit(123), Lit(97), Lit(125), Arg(27)], "\n{A}{{{_x:3}x{é }é{é} {foo_1:(bold)}{{}}{a_:?}{{a}}{Zed}", A = loop { break t(17) }, a_ = { let c = t(19); c }, é = Ch(0) + t(21),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(120), Arg(29), Lit(123), Bold(0), Lit(195), Lit(169), Arg(1), Lit(123), Arg(2), Lit(32)], "x{ab:?  }{{{0:(bold)}é{1}{{{2:?  } ", t(0) << 0, (|| t(1))(), -t(2),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Lit(48), Lit(125), Arg(31), Arg(28), Lit(123), Lit(125), Arg(32), Lit(125), Arg(31), Lit(123), Lit(97), Lit(125)], "0}}{a1}{A}{{}}{é:?  }}}{a1}{{a}}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 15 18 20], [Lit(123), Lit(97), Lit(125), Bold(15), Lit(125), Arg(15), Lit(226), Lit(130), Lit(172), Arg(0), Lit(123), Lit(97), Lit(125), Arg(18), Lit(125), Arg(20), Arg(20)], "{{a}}{_x:(bold)}}}{_x:?}\u{20ac}{0:}{{a}}{ab }}}{a1:?  }{a1:}", { t(0) }, _x = t(15) & Ch(127), ab = if yes() { t(18) } else { Ch(0) }, a1 = { let c = t(20); c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 15 12 16], [Lit(125), Arg(15), Arg(16), Bold(0), Arg(12), Lit(195), Lit(169), Arg(16), Lit(32)], "}}{_x:}{Zed:?}{0:(bold)}{a:}é{Zed:s} ", if yes() { t(0) } else { Ch(0) }, _x = Ch(0) + t(15), a = t(12) & Ch(127), Zed = (t(16), 1).0,),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(123), Arg(0)], "{{{0:3}", (|| t(0))()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Lit(10)], "{0}\n", (|| t(0))()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 22], [Lit(125), Arg(0), Lit(125), Arg(28), Lit(195), Lit(169), Arg(22), Lit(195), Lit(169), Arg(26)], "}}{0:}}}{A:s}é{type:3}é{_x:}", Ch::from(t(0).0 as u8), r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12 16], [Lit(32), Arg(12), Lit(32), Arg(16), Arg(0), Lit(123)], " {a:?} {Zed:?  }{0:s}{{", { let c = t(0); c }, a = match t(12) { c => c }, Zed = &&t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 20 13], [Lit(123), Arg(2), Lit(123), Lit(125), Arg(20), Lit(125), Arg(3), Arg(0), Lit(48), Lit(125), Bold(4), Lit(10), Arg(13), Lit(195), Lit(169), Arg(1), Lit(48), Lit(125)], "{{{2:?}{{}}{a1 }}}{3:3}{0}0}}{4:(bold)}\n{b:3}é{1 }0}}", &&t(0), t(1) | Ch(0), t(2) & Ch(127), &t(3), { t(4) }, a1 = t(20) << 0, b = loop { break t(13) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 15 16 19], [Lit(32), Bold(4), Lit(123), Lit(97), Lit(125), Arg(2), Lit(10), Bold(15), Lit(123), Lit(97), Lit(125), Arg(0), Arg(0), Lit(10), Arg(1), Lit(123), Bold(19), Lit(123), Lit(125), Arg(16), Lit(10), Arg(3), Lit(123), Arg(4), Lit(120)], " {4:(bold)}{{a}}{2:s}\n{_x:(bold)}{{a}}{0:?}{0}\n{1:3}{{{a_:(bold)}{{}}{Zed:s}\n{3}{{{4:s}x", Ch::from(t(0).0 as u8), match t(1) { c => c }, t(2) << 0, id(t(3)), Ch(0) + t(4), _x = &&t(15), Zed = if yes() { t(16) } else { Ch(0) }, a_ = id(t(19)),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 19 17 13], [Lit(10), Bold(0), Lit(195), Lit(169), Arg(17), Lit(123), Arg(19), Lit(123), Arg(13)], concat!("\n{:(bold)}é{A}{{{a_:?  }{{{", "b:?}"), (|| t(0))(), a_ = t(19) & Ch(127), A = match t(17) { c => c }, b = Ch::from(t(13).0 as u8),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 13 16], [Arg(0), Lit(48), Lit(125), Arg(16), Lit(120), Arg(2), Lit(123), Lit(97), Lit(125), Arg(13), Lit(120), Arg(1), Lit(123), Arg(31), Lit(125)], "{0:s}0}}{Zed:}x{2 }{{a}}{b}x{1:}{{{a1}}}", [t(0)][0], t(1) | Ch(0), Ch::from(t(2).0 as u8), b = (t(13), 1).0, Zed = [t(16)][0]),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 16], [Lit(48), Lit(125), Arg(16), Lit(120), Arg(0), Bold(1), Lit(32)], "0}}{Zed:?}x{0}{1:(bold)} ", t(0).me(), &t(1), Zed = t(16).me(),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Lit(123), Lit(125), Arg(0), Lit(123), Lit(125), Arg(12), Lit(123), Arg(32), Lit(120)], "{{}}{0}{{}}{a}{{{é:?}x", *&t(0), a = unsafe { t(12) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 19 20 13], [Lit(32), Arg(13), Lit(123), Lit(125), Arg(0), Lit(226), Lit(130), Lit(172), Arg(19), Lit(123), Lit(125), Arg(3), Lit(10), Arg(1), Lit(123), Lit(97), Lit(125), Arg(20), Lit(226), Lit(130), Lit(172), Bold(2), Lit(125)], " {b:?  }{{}}{}\u{20ac}{a_}{{}}{3:s}\n{ }{{a}}{a1:?}\u{20ac}{:(bold)}}}", Ch::from(t(0).0 as u8), if yes() { t(1) } else { Ch(0) }, { t(2) }, t(3) << 0, a_ = t(19) << 0, a1 = Ch::from(t(20).0 as u8), b = loop { break t(13) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 17 12 21 22], [Lit(48), Lit(125), Arg(22), Arg(17), Lit(32), Arg(12), Lit(10), Arg(1), Lit(120), Arg(0), Lit(226), Lit(130), Lit(172), Arg(21), Lit(195), Lit(169)], "0}}{type:3}{A } {a}\n{1:s}x{0:3}\u{20ac}{é }é", Ch(0) + t(0), unsafe { t(1) }, A = [t(17)][0], a = id(t(12)), é = loop { break t(21) }, r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(123), Lit(125), Arg(23), Lit(123), Lit(125), Arg(0)], "{{}}{a}{{}}{0:3}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12 21], [Bold(21), Lit(123), Lit(125), Arg(21), Arg(0), Lit(120), Arg(12), Lit(10), Arg(1), Lit(123), Arg(2)], "{é:(bold)}{{}}{é }{0:?}x{a }\n{1:}{{{2:?  }", *&t(0), !t(1), t(2) << 0, a = &&t(12), é = { let c = t(21); c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17 19], [Lit(120), Arg(17), Lit(10), Arg(26), Lit(10), Arg(17), Arg(27), Bold(27), Lit(120), Arg(19), Lit(123), Lit(97), Lit(125)], "x{A:?}\n{_x:}\n{A:?  }{Zed:}{Zed:(bold)}x{a_:}{{a}}", A = if yes() { t(17) } else { Ch(0) }, a_ = [t(19)][0],),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Arg(4), Lit(123), Lit(125), Arg(30), Lit(195), Lit(169), Arg(0), Lit(48), Lit(125), Arg(30), Lit(123), Lit(97), Lit(125), Arg(26), Arg(3), Lit(48), Lit(125), Arg(31), Lit(48), Lit(125), Arg(1), Lit(120), Arg(2), Lit(120)], "{4:?  }{{}}{a_:?  }é{0}0}}{a_}{{a}}{_x:s}{3:s}0}}{a1}0}}{1:?  }x{2 }x", loop { break t(0) }, (|| t(1))(), t(2) << 0, match t(3) { c => c }, !t(4),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 15 14 12], [Lit(123), Lit(125), Bold(29), Arg(0), Lit(120), Arg(12), Lit(123), Arg(14), Lit(226), Lit(130), Lit(172), Arg(15), Lit(123), Lit(125), Arg(32), Lit(195), Lit(169)], "{{}}{ab:(bold)}{0}x{a:3}{{{foo_1:?}\u{20ac}{_x:}{{}}{é:}é", t(0) & Ch(127), _x = t(15), foo_1 = if yes() { t(14) } else { Ch(0) }, a = Ch(0) + t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(226), Lit(130), Lit(172), Arg(0), Lit(195), Lit(169)], "\u{20ac}{0:}é", (|| t(0))(),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 20 12], [Lit(10), Arg(20), Lit(120), Bold(12), Lit(123), Lit(125), Arg(0), Lit(10)], "\n{a1 }x{a:(bold)}{{}}{}\n", t(0), a1 = &&t(20), a = [t(12)][0],),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Lit(123), Lit(125), Arg(27), Arg(29), Lit(48), Lit(125), Arg(32), Lit(120), Arg(26)], "{{}}{Zed}{ab:3}0}}{é}x{_x:s}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(195), Lit(169), Arg(0), Lit(32), Arg(25), Lit(48), Lit(125), Arg(29), Lit(48), Lit(125), Arg(23), Lit(10), Arg(0), Lit(123), Lit(125)], "é{0:?  } {foo_1:?  }0}}{ab:3}0}}{a:3}\n{0}{{}}", !t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(120), Arg(1), Lit(226), Lit(130), Lit(172), Arg(0), Lit(226), Lit(130), Lit(172), Arg(25), Lit(123), Lit(97), Lit(125), Arg(2)], "x{1:?}\u{20ac}{:s}\u{20ac}{foo_1:s}{{a}}{2:?  }", &t(0), -t(1), &t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12 17 22], [Lit(226), Lit(130), Lit(172), Arg(24), Lit(123), Arg(12), Lit(123), Lit(125), Arg(22), Arg(17), Lit(123), Lit(125), Arg(17), Lit(195), Lit(169)], "\u{20ac}{b:}{{{a:?}{{}}{type}{A:s}{{}}{A }é", a = match t(12) { c => c }, A = -t(17), r#type = t(22),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 18 22], [Lit(226), Lit(130), Lit(172), Arg(18), Lit(123), Lit(97), Lit(125), Bold(0), Lit(123), Lit(97), Lit(125), Arg(22), Arg(31), Lit(123), Arg(31), Lit(10)], "\u{20ac}{ab:?}{{a}}{0:(bold)}{{a}}{type:s}{a1:}{{{a1:?  }\n", t(0) | Ch(0), ab = (|| t(18))(), r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 21 15], [Lit(125), Bold(31), Lit(32), Arg(1), Arg(2), Lit(125), Arg(3), Lit(195), Lit(169), Arg(15), Lit(120), Arg(0), Lit(123), Lit(97), Lit(125), Arg(4), Arg(21), Lit(120)], "}}{a1:(bold)} {1:?}{2 }}}{3:}é{_x:?}x{:3}{{a}}{4}{é:}x", -t(0), t(1) << 0, &t(2), if yes() { t(3) } else { Ch(0) }, Ch(0) + t(4), é = t(21).me(), _x = -t(15),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(10), Arg(27), Lit(123), Lit(97), Lit(125), Arg(1), Lit(123), Lit(125), Arg(23), Lit(125), Arg(26), Lit(48), Lit(125), Arg(0), Arg(27), Lit(195), Lit(169), Arg(2)], "\n{Zed}{{a}}{1}{{}}{a}}}{_x:?  }0}}{0}{Zed }é{2:3}", -t(0), &&t(1), unsafe { t(2) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(125), Arg(1), Arg(2), Lit(10), Arg(0), Lit(125), Arg(1), Lit(32)], concat!("}}{1:3}{2:?  ", "}\n{0}}}{1} "), t(0) << 0, t(1).me(), if yes() { t(2) } else { Ch(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Lit(123), Lit(125), Arg(16), Lit(48), Lit(125)], "{{}}{Zed:?  }0}}", Zed = if yes() { t(16) } else { Ch(0) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 16 12 13], [Lit(125), Arg(0), Lit(120), Arg(1), Arg(16), Lit(48), Lit(125), Bold(13), Lit(32), Arg(12), Lit(120), Arg(2)], "}}{:}x{1:3}{Zed}0}}{b:(bold)} {a }x{2:?}", (t(0), 1).0, { let c = t(1); c }, loop { break t(2) }, Zed = !t(16), a = Ch(0) + t(12), b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 19], [Lit(123), Lit(97), Lit(125), Arg(3), Lit(10), Arg(4), Lit(123), Lit(97), Lit(125), Arg(0), Lit(48), Lit(125), Arg(2), Lit(123), Arg(19), Lit(195), Lit(169), Arg(1), Lit(226), Lit(130), Lit(172)], "{{a}}{3 }\n{4 }{{a}}{0:?  }0}}{2:}{{{a_:?}é{1}\u{20ac}", &t(0), if yes() { t(1) } else { Ch(0) }, match t(2) { c => c }, !t(3), t(4).me(), a_ = &&t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 13], [Lit(123), Lit(97), Lit(125), Bold(13), Lit(226), Lit(130), Lit(172), Arg(0), Lit(10), Arg(27), Lit(125)], "{{a}}{b:(bold)}\u{20ac}{0:s}\n{Zed}}}", t(0), b = match t(13) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(10), Arg(0), Lit(195), Lit(169)], "\n{0:s}é", loop { break t(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(195), Lit(169), Arg(0)], "é{}", &t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 16], [Lit(48), Lit(125), Arg(31), Lit(123), Arg(28), Lit(32), Arg(16), Lit(226), Lit(130), Lit(172), Arg(0), Lit(32)], "0}}{a1:?}{{{A } {Zed:?}\u{20ac}{:} ", &t(0), Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(123), Bold(24), Lit(123), Arg(30), Lit(195), Lit(169), Arg(4), Lit(123), Lit(97), Lit(125), Arg(3), Lit(48), Lit(125), Arg(1), Lit(32), Arg(4), Lit(125), Arg(2), Lit(32), Arg(28), Lit(195), Lit(169), Arg(0), Lit(123), Lit(97), Lit(125)], "{{{b:(bold)}{{{a_:s}é{4}{{a}}{3 }0}}{1:?} {4:?}}}{2:?} {A}é{:?}{{a}}", id(t(0)), Ch::from(t(1).0 as u8), !t(2), &t(3), t(4) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3], [Lit(123), Lit(125), Arg(0), Lit(120), Arg(1), Arg(3), Lit(10), Bold(28), Lit(120), Arg(2), Lit(123)], "{{}}{}x{1 }{3:?  }\n{A:(bold)}x{2:?}{{", if yes() { t(0) } else { Ch(0) }, unsafe { t(1) }, t(2) << 0, &&t(3)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 21], [Lit(48), Lit(125), Arg(2), Lit(32), Arg(21), Lit(120), Arg(0), Lit(195), Lit(169), Arg(1), Lit(125), Arg(28)], "0}}{2} {é:}x{:}é{:}}}{A:?}", *&t(0), { t(1) }, unsafe { t(2) }, é = { let c = t(21); c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 21], [Lit(125), Arg(21), Lit(123), Arg(1), Lit(32), Arg(2), Lit(123), Arg(25), Arg(0), Lit(123)], "}}{é}{{{1:s} {2}{{{foo_1 }{:3}{{", t(0), (t(1), 1).0, { let c = t(2); c }, é = [t(21)][0],),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Lit(48), Lit(125), Arg(13), Lit(120)], "0}}{b:?  }x", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 13 17 12], [Bold(13), Lit(125), Bold(17), Lit(123), Lit(125), Arg(0), Arg(12), Lit(32)], "{b:(bold)}}}{A:(bold)}{{}}{ }{a:?} ", t(0) & Ch(127), b = [t(13)][0], A = t(17) | Ch(0), a = if yes() { t(12) } else { Ch(0) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 14 15 20], [Lit(48), Lit(125), Arg(14), Lit(195), Lit(169), Arg(0), Lit(195), Lit(169), Bold(15), Lit(10), Arg(20), Lit(123)], "0}}{foo_1:?}é{:}é{_x:(bold)}\n{a1:?}{{", (|| t(0))(), foo_1 = t(14).me(), _x = !t(15), a1 = Ch::from(t(20).0 as u8)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 13 12], [Lit(226), Lit(130), Lit(172), Arg(13), Lit(10), Bold(0), Arg(2), Lit(226), Lit(130), Lit(172), Arg(1), Arg(12), Lit(125)], "\u{20ac}{b }\n{:(bold)}{2:?  }\u{20ac}{1:?  }{a:}}}", *&t(0), (t(1), 1).0, &t(2), b = &t(13), a = Ch::from(t(12).0 as u8)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 16 14], [Lit(123), Arg(1), Arg(0), Arg(16), Lit(10), Arg(14), Lit(123), Lit(97), Lit(125), Bold(14), Lit(125)], "{{{1}{0:3}{Zed:s}\n{foo_1:}{{a}}{foo_1:(bold)}}}", t(0).me(), loop { break t(1) }, Zed = t(16).me(), foo_1 = { let c = t(14); c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(123), Lit(97), Lit(125), Arg(32), Lit(123), Arg(23), Lit(123), Lit(125), Arg(0), Lit(32), Arg(1), Lit(123), Arg(2), Lit(123), Lit(97), Lit(125), Arg(28), Lit(226), Lit(130), Lit(172), Arg(30), Lit(123)], "{{a}}{é:3}{{{a }{{}}{0:?  } {1}{{{2:?}{{a}}{A}\u{20ac}{a_:}{{", (|| t(0))(), match t(1) { c => c }, *&t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 20 18], [Arg(0), Arg(18), Lit(125), Arg(2), Lit(48), Lit(125), Arg(1), Arg(27), Lit(10), Arg(20), Lit(125)], "{:?}{ab:?  }}}{2}0}}{1:?  }{Zed}\n{a1:?}}}", t(0) | Ch(0), if yes() { t(1) } else { Ch(0) }, t(2), a1 = t(20).me(), ab = &t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3], [Lit(10), Arg(2), Lit(120), Arg(0), Arg(25), Lit(123), Bold(32), Lit(32), Bold(3), Arg(32), Lit(48), Lit(125), Arg(1), Lit(125), Arg(23), Lit(32)], "\n{2:}x{:?}{foo_1:3}{{{é:(bold)} {3:(bold)}{é:?  }0}}{1:?}}}{a:?  } ", loop { break t(0) }, if yes() { t(1) } else { Ch(0) }, loop { break t(2) }, *&t(3)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 18], [Lit(195), Lit(169), Arg(18), Lit(123), Lit(97), Lit(125), Arg(30), Lit(123), Lit(125), Arg(18), Lit(125), Arg(30), Lit(10), Arg(24), Lit(120), Arg(0), Lit(123), Arg(1), Lit(123), Lit(97), Lit(125)], "é{ab:?  }{{a}}{a_:?  }{{}}{ab:}}}{a_:3}\n{b:}x{0:3}{{{1:s}{{a}}", [t(0)][0], { t(1) }, ab = unsafe { t(18) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(10), Arg(24), Lit(195), Lit(169), Arg(0), Lit(120)], "\n{b:s}é{0:s}x", Ch(0) + t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(125), Arg(4), Lit(226), Lit(130), Lit(172), Arg(3), Lit(123), Lit(125), Arg(29), Lit(226), Lit(130), Lit(172), Arg(0), Lit(120), Arg(2), Lit(10), Arg(3), Lit(48), Lit(125), Arg(1), Lit(125), Arg(27), Lit(226), Lit(130), Lit(172), Arg(27), Lit(195), Lit(169)], "}}{4 }\u{20ac}{3:?}{{}}{ab:3}\u{20ac}{}x{2:s}\n{3 }0}}{1:?  }}}{Zed }\u{20ac}{Zed:3}é", loop { break t(0) }, loop { break t(1) }, *&t(2), &t(3), [t(4)][0]),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21 13], [Lit(120), Arg(21), Lit(48), Lit(125), Arg(13), Lit(123), Lit(97), Lit(125)], "x{é }0}}{b:?  }{{a}}", é = t(21), b = id(t(13))),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 20 22], [Lit(32), Arg(1), Lit(48), Lit(125), Arg(0), Arg(22), Lit(123), Arg(2), Lit(48), Lit(125), Arg(20)], " {1:?}0}}{:?  }{type:?  }{{{2:s}0}}{a1:3}", if yes() { t(0) } else { Ch(0) }, { let c = t(1); c }, t(2) | Ch(0), a1 = Ch::from(t(20).0 as u8), r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 18], [Lit(226), Lit(130), Lit(172), Arg(2), Lit(10), Arg(18), Lit(32), Arg(0), Lit(123), Lit(97), Lit(125), Arg(1), Lit(226), Lit(130), Lit(172)], "\u{20ac}{2:?}\n{ab} {0 }{{a}}{1 }\u{20ac}", { let c = t(0); c }, &&t(1), (|| t(2))(), ab = (t(18), 1).0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Lit(48), Lit(125), Arg(0), Lit(48), Lit(125)], "{2:?  }{1}0}}{}0}}", t(0) << 0, !t(1), -t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Lit(226), Lit(130), Lit(172), Arg(12), Lit(123), Lit(97), Lit(125), Arg(0), Lit(195), Lit(169), Arg(32), Lit(10), Bold(25)], "\u{20ac}{a:?  }{{a}}{0:s}é{é:}\n{foo_1:(bold)}", match t(0) { c => c }, a = t(12).me()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(10), Arg(0), Lit(120), Arg(28), Lit(123), Arg(27)], "\n{ }x{A:}{{{Zed:?  }", loop { break t(0) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 20 21 17], [Lit(123), Lit(97), Lit(125), Arg(4), Arg(3), Lit(120), Arg(20), Arg(1), Lit(48), Lit(125), Bold(2), Lit(48), Lit(125), Arg(17), Lit(32), Arg(21), Lit(123), Lit(97), Lit(125), Arg(0), Lit(32)], "{{a}}{4:3}{3 }x{a1:?  }{1:?}0}}{2:(bold)}0}}{A:} {é:?  }{{a}}{:?  } ", [t(0)][0], { t(1) }, t(2) & Ch(127), loop { break t(3) }, t(4), a1 = [t(20)][0], é = id(t(21)), A = &t(17),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 22], [Arg(31), Lit(195), Lit(169), Bold(0), Lit(125), Arg(1), Lit(125), Arg(32), Arg(22), Lit(226), Lit(130), Lit(172)], "{a1:}é{:(bold)}}}{:?  }}}{é}{type }\u{20ac}", (|| t(0))(), unsafe { t(1) }, r#type = t(22),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3], [Lit(10), Arg(0), Lit(123), Arg(30), Arg(2), Lit(32), Arg(3), Arg(1), Lit(123), Lit(125)], "\n{:?  }{{{a_}{2:} {3:3}{1:?}{{}}", &t(0), -t(1), Ch(0) + t(2), { let c = t(3); c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 22], [Arg(1), Arg(22), Lit(195), Lit(169), Arg(22), Lit(195), Lit(169), Arg(0), Lit(195), Lit(169)], "{1:s}{type}é{type:?}é{0:?}é", &t(0), (t(1), 1).0, r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 19], [Lit(195), Lit(169), Arg(1), Lit(125), Bold(19), Arg(0), Arg(29), Lit(123), Lit(97), Lit(125), Bold(2)], "é{1:s}}}{a_:(bold)}{0}{ab }{{a}}{2:(bold)}", -t(0), t(1), [t(2)][0], a_ = (t(19), 1).0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(226), Lit(130), Lit(172), Arg(24), Lit(195), Lit(169), Arg(0), Lit(125)], "\u{20ac}{b:?  }é{:}}}", t(0) & Ch(127),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Lit(120), Arg(0), Arg(32), Lit(195), Lit(169), Arg(12), Bold(25), Lit(48), Lit(125)], "x{:?}{é:?}é{a}{foo_1:(bold)}0}}", &&t(0), a = { t(12) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16 12 21], [Lit(10), Arg(12), Arg(28), Lit(125), Arg(21), Lit(10), Arg(16), Lit(48), Lit(125), Arg(30), Lit(123), Lit(97), Lit(125), Arg(25), Lit(195), Lit(169), Arg(26), Lit(120)], "\n{a:?  }{A:s}}}{é:3}\n{Zed}0}}{a_ }{{a}}{foo_1}é{_x:s}x", Zed = (t(16), 1).0, a = id(t(12)), é = &t(21),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(226), Lit(130), Lit(172), Bold(0), Lit(123), Lit(125), Arg(28), Arg(27)], "\u{20ac}{:(bold)}{{}}{A:s}{Zed }", t(0) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 21 12 18], [Lit(120), Arg(18), Arg(2), Lit(123), Lit(97), Lit(125), Arg(1), Lit(123), Arg(12), Arg(0), Lit(123), Arg(12), Lit(48), Lit(125), Bold(27), Lit(195), Lit(169), Arg(31), Lit(195), Lit(169), Arg(1), Lit(226), Lit(130), Lit(172), Arg(21), Lit(123), Lit(97), Lit(125)], "x{ab:s}{2:?}{{a}}{1:3}{{{a}{0:}{{{a:?  }0}}{Zed:(bold)}é{a1}é{1:3}\u{20ac}{é}{{a}}", loop { break t(0) }, match t(1) { c => c }, t(2) & Ch(127), é = loop { break t(21) }, a = { let c = t(12); c }, ab = &&t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 17 19 15], [Lit(32), Arg(0), Arg(15), Lit(48), Lit(125), Arg(29), Lit(32), Arg(19), Lit(32), Arg(17), Lit(123), Lit(97), Lit(125), Bold(1), Lit(123), Lit(125), Arg(2), Lit(125)], " {:3}{_x }0}}{ab:} {a_} {A}{{a}}{:(bold)}{{}}{:}}}", loop { break t(0) }, t(1) << 0, *&t(2), A = loop { break t(17) }, a_ = id(t(19)), _x = match t(15) { c => c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [], ""),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 13], [Lit(10), Arg(3), Arg(25), Lit(125), Arg(13), Lit(195), Lit(169), Arg(26), Bold(1), Lit(123), Lit(125), Bold(2), Lit(48), Lit(125), Arg(0), Lit(123), Lit(125), Arg(31), Bold(28), Lit(195), Lit(169)], "\n{3}{foo_1}}}{b:s}é{_x}{1:(bold)}{{}}{2:(bold)}0}}{0:s}{{}}{a1:?}{A:(bold)}é", &&t(0), (t(1), 1).0, (t(2), 1).0, (t(3), 1).0, b = Ch::from(t(13).0 as u8)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 22], [Arg(0), Lit(120), Arg(32), Bold(22), Lit(123), Lit(125), Arg(28), Lit(123), Lit(125), Arg(30), Lit(123), Lit(125), Arg(25)], "{0}x{é:s}{type:(bold)}{{}}{A}{{}}{a_}{{}}{foo_1}", (t(0), 1).0, r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15 12 19], [Lit(48), Lit(125), Arg(19), Bold(12), Lit(195), Lit(169), Arg(15), Lit(48), Lit(125)], "0}}{a_}{a:(bold)}é{_x }0}}", _x = t(15), a = &t(12), a_ = id(t(19))),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(120), Bold(30), Lit(195), Lit(169), Arg(25), Lit(195), Lit(169), Bold(0), Lit(48), Lit(125)], "x{a_:(bold)}é{foo_1}é{0:(bold)}0}}", t(0) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Lit(123), Lit(97), Lit(125), Bold(24), Arg(32), Lit(10)], "{{a}}{b:(bold)}{é:s}\n"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 19 17 15], [Lit(123), Arg(1), Lit(123), Arg(19), Lit(32), Arg(17), Lit(120), Arg(23), Lit(226), Lit(130), Lit(172), Arg(32), Lit(123), Lit(125), Arg(17), Lit(10), Arg(29), Lit(120), Arg(15), Lit(10), Arg(0), Lit(123)], "{{{1:?  }{{{a_:s} {A }x{a:s}\u{20ac}{é:3}{{}}{A}\n{ab}x{_x:}\n{0}{{", { let c = t(0); c }, { t(1) }, a_ = t(19).me(), A = { let c = t(17); c }, _x = { let c = t(15); c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 14 17], [Lit(123), Lit(125), Arg(29), Arg(0), Lit(195), Lit(169), Arg(17), Lit(123), Lit(97), Lit(125), Arg(0), Arg(14), Lit(10)], "{{}}{ab:}{0:?}é{A:3}{{a}}{0}{foo_1:3}\n", { let c = t(0); c }, foo_1 = [t(14)][0], A = match t(17) { c => c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 12], [Arg(0), Arg(12), Arg(1), Lit(226), Lit(130), Lit(172), Arg(4), Arg(3), Lit(10), Arg(2), Lit(226), Lit(130), Lit(172)], "{0:?}{a}{1}\u{20ac}{4:}{3:?  }\n{2:?  }\u{20ac}", [t(0)][0], t(1).me(), t(2) | Ch(0), id(t(3)), match t(4) { c => c }, a = !t(12),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 20], [Lit(123), Arg(20), Lit(123), Arg(0), Arg(2), Bold(32), Lit(48), Lit(125), Arg(1), Lit(123), Lit(97), Lit(125)], "{{{a1:?  }{{{0}{2:s}{é:(bold)}0}}{1:s}{{a}}", [t(0)][0], t(1) | Ch(0), t(2) | Ch(0), a1 = -t(20),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(32), Arg(0), Lit(120)], concat!(" {:?", "}x"), t(0) << 0,),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 15 18 20], [Lit(120), Bold(23), Arg(0), Lit(120), Bold(1), Lit(123), Lit(125), Arg(20), Lit(123), Lit(97), Lit(125), Arg(2), Lit(48), Lit(125), Arg(18), Lit(226), Lit(130), Lit(172), Arg(15), Lit(120), Arg(0), Lit(48), Lit(125)], "x{a:(bold)}{0:3}x{1:(bold)}{{}}{a1:s}{{a}}{2}0}}{ab:s}\u{20ac}{_x}x{0:?  }0}}", Ch(0) + t(0), t(1).me(), &&t(2), _x = &&t(15), ab = Ch::from(t(18).0 as u8), a1 = &&t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 19 20 17], [Lit(123), Bold(19), Lit(123), Arg(24), Lit(123), Arg(27), Lit(125), Arg(0), Lit(48), Lit(125), Arg(0), Lit(123), Arg(20), Lit(123), Lit(125), Arg(17), Lit(120), Arg(1), Lit(226), Lit(130), Lit(172), Arg(32), Lit(120)], "{{{a_:(bold)}{{{b}{{{Zed:?  }}}{}0}}{0}{{{a1:3}{{}}{A:?}x{:?}\u{20ac}{é}x", id(t(0)), (t(1), 1).0, a_ = &t(19), a1 = unsafe { t(20) }, A = t(17) & Ch(127),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(123), Arg(27), Arg(2), Lit(10), Arg(27), Lit(123), Lit(97), Lit(125), Arg(1), Lit(120), Arg(0), Lit(10), Arg(29), Lit(48), Lit(125), Arg(0), Lit(226), Lit(130), Lit(172)], "{{{Zed:?}{2:?  }\n{Zed:?  }{{a}}{1:?}x{0:?}\n{ab:3}0}}{0:s}\u{20ac}", if yes() { t(0) } else { Ch(0) }, Ch::from(t(1).0 as u8), t(2) | Ch(0),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12 22], [Lit(120), Arg(12), Lit(226), Lit(130), Lit(172), Arg(24), Arg(27), Lit(123), Lit(97), Lit(125), Arg(22), Lit(120)], "x{a}\u{20ac}{b:3}{Zed:}{{a}}{type:?}x", a = t(12) | Ch(0), r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(48), Lit(125), Arg(1), Lit(125), Arg(0), Lit(48), Lit(125), Arg(2), Lit(32)], "0}}{1 }}}{0:?}0}}{2:3} ", unsafe { t(0) }, [t(1)][0], id(t(2))),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(48), Lit(125), Arg(1), Lit(123), Lit(125), Arg(3), Lit(10), Arg(1), Lit(32), Arg(0), Lit(10), Arg(25), Lit(123), Lit(125), Arg(2), Lit(120), Bold(4), Lit(125)], "0}}{1:?}{{}}{3:}\n{1} {:?}\n{foo_1:}{{}}{2:3}x{4:(bold)}}}", (|| t(0))(), [t(1)][0], { let c = t(2); c }, t(3) & Ch(127), [t(4)][0]),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 16 19 14], [Lit(226), Lit(130), Lit(172), Arg(14), Arg(19), Lit(226), Lit(130), Lit(172), Arg(23), Lit(120), Bold(1), Lit(195), Lit(169), Arg(0), Lit(48), Lit(125), Arg(16), Lit(123)], "\u{20ac}{foo_1 }{a_:}\u{20ac}{a:s}x{1:(bold)}é{}0}}{Zed:3}{{", -t(0), t(1) & Ch(127), Zed = t(16) | Ch(0), a_ = t(19) << 0, foo_1 = t(14).me()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(226), Lit(130), Lit(172), Arg(0), Lit(10), Arg(0), Lit(123), Arg(2), Lit(123), Lit(125), Arg(1), Lit(32)], "\u{20ac}{:3}\n{0:3}{{{2:?  }{{}}{} ", t(0), !t(1), Ch(0) + t(2),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Lit(123), Bold(0), Bold(1), Lit(48), Lit(125)], "{{{:(bold)}{1:(bold)}0}}", { let c = t(0); c }, unsafe { t(1) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 13], [Lit(48), Lit(125), Bold(0), Lit(195), Lit(169), Arg(13), Lit(48), Lit(125)], concat!("0}}{", ":(bold)}é{b:s}0}}"), !t(0), b = t(13) << 0,),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 18 16], [Lit(125), Arg(18), Lit(48), Lit(125), Arg(18), Lit(123), Lit(125), Arg(16), Lit(125), Arg(1), Lit(48), Lit(125), Arg(0), Lit(125), Arg(25), Lit(123)], "}}{ab }0}}{ab:3}{{}}{Zed:?  }}}{1 }0}}{0:3}}}{foo_1:}{{", id(t(0)), loop { break t(1) }, ab = t(18) & Ch(127), Zed = &t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(120), Arg(2), Arg(0), Lit(32), Arg(1), Lit(123), Lit(125)], "x{2:s}{0 } {1:?  }{{}}", !t(0), (t(1), 1).0, &t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 16 13 20], [Lit(48), Lit(125), Arg(0), Lit(48), Lit(125), Arg(16), Lit(123), Arg(29), Lit(125), Arg(13), Lit(226), Lit(130), Lit(172), Arg(16), Arg(13), Arg(28), Lit(32), Arg(20), Lit(226), Lit(130), Lit(172)], "0}}{:}0}}{Zed }{{{ab}}}{b:3}\u{20ac}{Zed:s}{b}{A} {a1}\u{20ac}", [t(0)][0], Zed = if yes() { t(16) } else { Ch(0) }, b = [t(13)][0], a1 = id(t(20))),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 20], [Lit(123), Lit(125), Bold(20), Lit(48), Lit(125), Bold(20), Arg(0), Lit(32), Arg(1), Lit(226), Lit(130), Lit(172), Bold(2), Lit(125), Arg(2), Lit(10), Bold(23), Lit(123), Lit(125), Arg(26), Lit(226), Lit(130), Lit(172)], "{{}}{a1:(bold)}0}}{a1:(bold)}{ } {:s}\u{20ac}{:(bold)}}}{2}\n{a:(bold)}{{}}{_x:}\u{20ac}", { t(0) }, [t(1)][0], (t(2), 1).0, a1 = unsafe { t(20) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(123), Lit(125), Arg(23), Lit(195), Lit(169), Arg(0), Lit(195), Lit(169), Arg(28), Arg(4), Lit(120), Bold(3), Arg(1), Arg(2), Lit(226), Lit(130), Lit(172)], "{{}}{a }é{0:?}é{A:3}{4}x{3:(bold)}{1:}{2:?  }\u{20ac}", t(0), t(1) | Ch(0), id(t(2)), &&t(3), match t(4) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Bold(29), Lit(10), Arg(0), Lit(195), Lit(169)], "{ab:(bold)}\n{0}é", t(0) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(123), Arg(27), Lit(120), Bold(1), Lit(123), Lit(97), Lit(125), Bold(4), Lit(10), Arg(3), Lit(123), Lit(125), Bold(0), Bold(23), Lit(32), Arg(2), Lit(226), Lit(130), Lit(172)], "{{{Zed:s}x{1:(bold)}{{a}}{4:(bold)}\n{3:3}{{}}{0:(bold)}{a:(bold)} {2:?}\u{20ac}", t(0) | Ch(0), Ch::from(t(1).0 as u8), &&t(2), *&t(3), -t(4),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21 19 22], [Lit(48), Lit(125), Arg(22), Lit(123), Lit(125), Arg(31), Lit(10), Arg(21), Arg(19), Lit(123), Lit(97), Lit(125)], "0}}{type:?}{{}}{a1:}\n{é:3}{a_:?  }{{a}}", é = loop { break t(21) }, a_ = !t(19), r#type = t(22),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12 18], [Lit(32), Arg(26), Lit(10), Arg(31), Lit(123), Lit(97), Lit(125), Bold(12), Lit(125), Arg(12), Arg(30), Arg(18), Lit(123)], " {_x }\n{a1 }{{a}}{a:(bold)}}}{a:?}{a_:3}{ab:?  }{{", a = { t(12) }, ab = unsafe { t(18) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12 21], [Arg(29), Lit(125), Arg(21), Bold(28), Lit(123), Lit(97), Lit(125), Arg(12), Lit(123), Lit(125), Arg(21), Lit(123), Lit(97), Lit(125), Arg(1), Lit(125), Arg(2), Lit(123), Arg(2), Lit(48), Lit(125), Bold(0), Lit(195), Lit(169)], "{ab}}}{é:3}{A:(bold)}{{a}}{a}{{}}{é:?}{{a}}{1:3}}}{2:3}{{{2:s}0}}{0:(bold)}é", match t(0) { c => c }, &t(1), &&t(2), a = t(12) & Ch(127), é = t(21) << 0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Lit(32), Arg(2), Lit(120), Arg(28), Lit(195), Lit(169), Arg(1), Lit(123), Arg(0), Lit(123), Lit(97), Lit(125), Arg(1), Lit(226), Lit(130), Lit(172)], " {2}x{A:}é{1:?}{{{}{{a}}{:s}\u{20ac}", &t(0), &t(1), { t(2) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12 13 19 22], [Lit(125), Arg(22), Lit(48), Lit(125), Bold(13), Lit(48), Lit(125), Bold(12), Lit(32), Arg(19), Lit(195), Lit(169), Arg(12), Lit(226), Lit(130), Lit(172), Arg(28), Lit(123), Lit(125)], "}}{type:3}0}}{b:(bold)}0}}{a:(bold)} {a_:?}é{a:}\u{20ac}{A}{{}}", a = !t(12), b = if yes() { t(13) } else { Ch(0) }, a_ = t(19).me(), r#type = t(22),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Lit(195), Lit(169), Arg(0), Lit(48), Lit(125), Arg(1), Lit(123), Lit(97), Lit(125)], "{2:s}é{:?  }0}}{1 }{{a}}", (t(0), 1).0, Ch::from(t(1).0 as u8), { t(2) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 15 18 14], [Lit(123), Lit(125), Arg(3), Lit(226), Lit(130), Lit(172), Arg(2), Lit(10), Arg(1), Lit(123), Lit(97), Lit(125), Arg(18), Lit(226), Lit(130), Lit(172), Arg(14), Lit(120), Arg(24), Lit(10), Arg(0), Arg(0), Lit(48), Lit(125), Arg(31), Arg(15), Arg(32), Lit(120)], "{{}}{3:?  }\u{20ac}{2:s}\n{1}{{a}}{ab}\u{20ac}{foo_1}x{b:}\n{}{0:?}0}}{a1:?}{_x}{é }x", Ch::from(t(0).0 as u8), -t(1), match t(2) { c => c }, id(t(3)), _x = -t(15), ab = { t(18) }, foo_1 = !t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 16], [Lit(123), Lit(125), Arg(31), Lit(48), Lit(125), Arg(16), Lit(123), Lit(125), Arg(24), Lit(125), Arg(1), Lit(48), Lit(125), Arg(0), Arg(0), Arg(1), Lit(32)], "{{}}{a1:}0}}{Zed:?}{{}}{b}}}{1}0}}{0:s}{0:3}{1:3} ", t(0), *&t(1), Zed = t(16) << 0,),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4], [Lit(226), Lit(130), Lit(172), Arg(1), Lit(125), Arg(3), Lit(123), Lit(125), Arg(3), Lit(32), Bold(3), Lit(195), Lit(169), Arg(28), Lit(10), Arg(0), Lit(195), Lit(169), Arg(4), Lit(123), Arg(2), Lit(123), Lit(97), Lit(125), Bold(29), Lit(226), Lit(130), Lit(172)], "\u{20ac}{1:?}}}{3:3}{{}}{3:?} {3:(bold)}é{A:}\n{ }é{4:}{{{2:s}{{a}}{ab:(bold)}\u{20ac}", unsafe { t(0) }, id(t(1)), [t(2)][0], [t(3)][0], { let c = t(4); c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 21 20 17], [Lit(123), Lit(125), Arg(20), Lit(48), Lit(125), Arg(3), Lit(123), Lit(97), Lit(125), Arg(17), Lit(226), Lit(130), Lit(172), Arg(2), Lit(123), Lit(97), Lit(125), Arg(21), Lit(10), Arg(1), Lit(123), Arg(0), Lit(125)], "{{}}{a1}0}}{3 }{{a}}{A:?}\u{20ac}{2}{{a}}{é}\n{1}{{{:}}}", !t(0), if yes() { t(1) } else { Ch(0) }, t(2) | Ch(0), { t(3) }, é = &&t(21), a1 = if yes() { t(20) } else { Ch(0) }, A = { t(17) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 17], [Lit(32), Arg(25), Arg(0), Lit(123), Lit(97), Lit(125), Arg(1), Lit(32), Arg(2), Arg(17), Lit(125)], " {foo_1}{0:3}{{a}}{1:?} {2}{A:}}}", t(0).me(), if yes() { t(1) } else { Ch(0) }, [t(2)][0], A = t(17) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 13], [Lit(32), Arg(0), Lit(125), Arg(13), Lit(226), Lit(130), Lit(172), Arg(32), Lit(195), Lit(169), Arg(32), Arg(13), Lit(32), Arg(25), Lit(125)], " {:?}}}{b}\u{20ac}{é:3}é{é:s}{b} {foo_1}}}", Ch::from(t(0).0 as u8), b = { let c = t(13); c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 18 21], [Lit(123), Lit(97), Lit(125), Arg(27), Lit(48), Lit(125), Arg(23), Lit(123), Lit(125), Arg(0), Lit(226), Lit(130), Lit(172), Arg(18), Lit(48), Lit(125), Arg(21), Lit(195), Lit(169)], "{{a}}{Zed:?}0}}{a:?  }{{}}{0:?}\u{20ac}{ab}0}}{é:s}é", { t(0) }, ab = id(t(18)), é = Ch(0) + t(21),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 14 15 12], [Lit(123), Arg(2), Lit(10), Arg(1), Lit(226), Lit(130), Lit(172), Arg(32), Arg(1), Lit(125), Bold(31), Lit(123), Arg(0), Lit(226), Lit(130), Lit(172), Arg(14), Lit(48), Lit(125), Arg(15), Lit(123), Lit(97), Lit(125), Arg(28), Lit(10), Arg(12), Lit(195), Lit(169)], "{{{2:s}\n{1:?}\u{20ac}{é:3}{1:?}}}{a1:(bold)}{{{:?}\u{20ac}{foo_1}0}}{_x }{{a}}{A }\n{a}é", (t(0), 1).0, t(1), Ch(0) + t(2), foo_1 = -t(14), _x = -t(15), a = *&t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(195), Lit(169), Arg(0), Lit(195), Lit(169)], "é{0:}é", &t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12 13 17], [Lit(195), Lit(169), Arg(13), Lit(123), Lit(125), Arg(17), Lit(123), Arg(0), Arg(12), Lit(120), Arg(30), Lit(123), Lit(125), Arg(1), Arg(26), Lit(195), Lit(169)], "é{b:3}{{}}{A:?}{{{0 }{a:}x{a_}{{}}{1:?}{_x:3}é", t(0) << 0, t(1) | Ch(0), a = t(12), b = t(13) << 0, A = unsafe { t(17) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3], [Lit(123), Lit(97), Lit(125), Arg(2), Lit(123), Arg(0), Lit(48), Lit(125), Arg(1), Lit(123), Lit(125), Bold(3), Lit(120), Arg(24), Lit(48), Lit(125)], "{{a}}{2}{{{:3}0}}{}{{}}{3:(bold)}x{b}0}}", t(0).me(), &&t(1), [t(2)][0], t(3) | Ch(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(48), Lit(125), Arg(28), Lit(226), Lit(130), Lit(172), Arg(29), Lit(32), Arg(0), Lit(48), Lit(125)], "0}}{A}\u{20ac}{ab:?} {:s}0}}", &&t(0),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 14], [Lit(32), Arg(14), Lit(125), Arg(1), Lit(125), Bold(4), Lit(123), Lit(97), Lit(125), Arg(0), Lit(120), Arg(3), Lit(32), Arg(3), Lit(123), Arg(2), Lit(123), Lit(125)], " {foo_1:?  }}}{1:?}}}{4:(bold)}{{a}}{}x{3 } {3:3}{{{2}{{}}", t(0), unsafe { t(1) }, { t(2) }, &t(3), if yes() { t(4) } else { Ch(0) }, foo_1 = (t(14), 1).0),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Lit(123), Lit(125), Arg(12), Lit(226), Lit(130), Lit(172), Arg(12), Lit(48), Lit(125)], "{{}}{a:}\u{20ac}{a:?  }0}}", a = t(12) & Ch(127)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 16 17], [Lit(32), Arg(31), Lit(123), Lit(97), Lit(125), Arg(17), Lit(10), Arg(16), Lit(123), Lit(125), Arg(0), Lit(125), Arg(26), Lit(125)], " {a1:?  }{{a}}{A:s}\n{Zed:?  }{{}}{}}}{_x:}}}", unsafe { t(0) }, Zed = t(16) & Ch(127), A = { t(17) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Lit(48), Lit(125), Arg(0), Lit(125), Arg(32), Lit(123), Lit(97), Lit(125)], "0}}{0:3}}}{é:?}{{a}}", Ch(0) + t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 18 15 13], [Arg(0), Lit(48), Lit(125), Arg(13), Lit(123), Lit(125), Arg(18), Lit(123), Lit(97), Lit(125), Arg(15), Lit(123), Lit(97), Lit(125), Arg(18), Lit(120)], concat!("{:?  }0}}{b}{{}}{ab:3}{{a}}{_x:}{{a}}{a", "b:s}x"), id(t(0)), ab = loop { break t(18) }, _x = (t(15), 1).0, b = *&t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 18], [Lit(32), Arg(4), Lit(123), Lit(125), Bold(2), Lit(123), Arg(3), Lit(123), Lit(125), Arg(1), Lit(120), Arg(18), Lit(123), Arg(10), Lit(125), Arg(9), Lit(48), Lit(125), Arg(8), Lit(10), Bold(7), Lit(123), Lit(125), Arg(5), Lit(32), Bold(11), Lit(123), Arg(0), Lit(195), Lit(169), Arg(6), Lit(10), Arg(4), Lit(10)], " {4:3}{{}}{2:(bold)}{{{3:}{{}}{1 }x{ab}{{{10 }}}{9:}0}}{8}\n{7:(bold)}{{}}{5} {11:(bold)}{{{}é{6:3}\n{4 }\n", id(t(0)), (t(1), 1).0, !t(2), match t(3) { c => c }, Ch::from(t(4).0 as u8), unsafe { t(5) }, &t(6), loop { break t(7) }, t(8) & Ch(127), *&t(9), Ch::from(t(10).0 as u8), if yes() { t(11) } else { Ch(0) }, ab = t(18).me()),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11], [Arg(8), Lit(123), Lit(125), Arg(4), Lit(123), Lit(125), Arg(3), Lit(125), Arg(5), Arg(1), Lit(123), Lit(97), Lit(125), Arg(0), Lit(195), Lit(169), Arg(9), Lit(10), Arg(4), Lit(120), Arg(2), Lit(120), Arg(6), Lit(195), Lit(169), Arg(10), Lit(125), Arg(11), Arg(7), Lit(125)], "{8:}{{}}{4 }{{}}{3}}}{5}{1 }{{a}}{0:s}é{9:s}\n{4}x{2:3}x{6:?}é{10:?}}}{11 }{7:}}}", &t(0), t(1) << 0, if yes() { t(2) } else { Ch(0) }, &&t(3), Ch(0) + t(4), { t(5) }, t(6), { let c = t(7); c }, &t(8), *&t(9), *&t(10), { t(11) },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11], [Lit(123), Lit(97), Lit(125), Arg(11), Lit(32), Arg(5), Lit(123), Lit(125), Arg(31), Lit(195), Lit(169), Arg(7), Arg(2), Lit(123), Arg(0), Lit(123), Lit(125), Arg(6), Lit(32), Arg(1), Arg(8), Lit(120), Arg(4), Lit(120), Arg(3), Lit(120), Arg(9), Arg(10), Lit(120)], "{{a}}{11:s} {5}{{}}{a1}é{7:3}{2:s}{{{0:s}{{}}{6:3} {1}{8:3}x{4}x{3 }x{9:?  }{10:3}x", !t(0), t(1) & Ch(127), t(2), { t(3) }, !t(4), t(5) << 0, (|| t(6))(), { let c = t(7); c }, if yes() { t(8) } else { Ch(0) }, t(9), t(10), Ch(0) + t(11)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 21 14 20], [Lit(10), Arg(10), Lit(123), Lit(97), Lit(125), Arg(5), Lit(32), Arg(6), Lit(123), Lit(125), Arg(14), Lit(10), Arg(0), Lit(125), Bold(1), Lit(195), Lit(169), Arg(4), Lit(123), Arg(3), Lit(123), Arg(2), Arg(7), Lit(120), Arg(29), Lit(125), Arg(20), Arg(21), Lit(125), Arg(8), Arg(8), Lit(195), Lit(169), Arg(9), Lit(123), Lit(125), Arg(20), Lit(123), Arg(14), Lit(123), Lit(125), Arg(11), Lit(123), Lit(97), Lit(125)], "\n{10:s}{{a}}{5:3} {6:3}{{}}{foo_1:?  }\n{0}}}{1:(bold)}é{4:s}{{{3}{{{2:3}{7}x{ab }}}{a1}{é:3}}}{8:?  }{8}é{9:?}{{}}{a1}{{{foo_1 }{{}}{11 }{{a}}", t(0), t(1) | Ch(0), id(t(2)), (t(3), 1).0, *&t(4), unsafe { t(5) }, { let c = t(6); c }, id(t(7)), match t(8) { c => c }, Ch::from(t(9).0 as u8), t(10) | Ch(0), t(11), é = id(t(21)), foo_1 = unsafe { t(14) }, a1 = Ch(0) + t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 16], [Lit(123), Lit(125), Arg(6), Arg(32), Lit(226), Lit(130), Lit(172), Arg(5), Lit(195), Lit(169), Arg(2), Lit(123), Lit(97), Lit(125), Arg(30), Lit(123), Lit(125), Arg(16), Lit(10), Bold(10), Arg(25), Lit(125), Arg(4), Arg(7), Lit(226), Lit(130), Lit(172), Arg(9), Arg(11), Lit(226), Lit(130), Lit(172), Arg(0), Lit(125), Arg(1), Lit(125), Arg(8), Lit(48), Lit(125), Arg(3), Lit(123), Lit(97), Lit(125), Arg(9), Lit(48), Lit(125)], "{{}}{6:3}{é:}\u{20ac}{5:s}é{2:?}{{a}}{a_:}{{}}{Zed }\n{10:(bold)}{foo_1:?  }}}{4:?  }{7:s}\u{20ac}{9:?}{11:?  }\u{20ac}{0:?}}}{1:s}}}{8 }0}}{3}{{a}}{9:}0}}", if yes() { t(0) } else { Ch(0) }, t(1) & Ch(127), t(2) << 0, (|| t(3))(), (t(4), 1).0, { let c = t(5); c }, unsafe { t(6) }, t(7) << 0, &&t(8), { t(9) }, t(10) | Ch(0), id(t(11)), Zed = match t(16) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 19 18], [Lit(123), Lit(97), Lit(125), Arg(19), Lit(32), Arg(18), Lit(123), Arg(7), Lit(10), Arg(1), Lit(226), Lit(130), Lit(172), Arg(6), Lit(226), Lit(130), Lit(172), Arg(0), Lit(125), Arg(3), Lit(226), Lit(130), Lit(172), Arg(8), Lit(125), Arg(9), Lit(226), Lit(130), Lit(172), Arg(11), Lit(226), Lit(130), Lit(172), Arg(4), Arg(10), Lit(120), Arg(2), Arg(5), Lit(10)], "{{a}}{a_:} {ab:?  }{{{7 }\n{1}\u{20ac}{6:}\u{20ac}{}}}{3}\u{20ac}{8 }}}{9}\u{20ac}{11}\u{20ac}{4:}{10:?  }x{2:3}{5:s}\n", t(0).me(), { let c = t(1); c }, t(2) & Ch(127), (|| t(3))(), { let c = t(4); c }, id(t(5)), &t(6), id(t(7)), t(8) | Ch(0), !t(9), loop { break t(10) }, { let c = t(11); c }, a_ = t(19) & Ch(127), ab = (|| t(18))(),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 14], [Lit(123), Lit(97), Lit(125), Arg(8), Bold(4), Arg(6), Lit(10), Arg(5), Lit(123), Lit(125), Bold(3), Lit(226), Lit(130), Lit(172), Arg(7), Lit(32), Arg(1), Lit(32), Arg(0), Lit(120), Bold(14), Lit(120), Arg(2), Lit(226), Lit(130), Lit(172), Arg(11), Lit(123), Lit(97), Lit(125), Bold(8), Lit(123), Lit(97), Lit(125), Arg(9), Lit(195), Lit(169), Arg(9), Arg(10), Lit(226), Lit(130), Lit(172)], "{{a}}{8:3}{4:(bold)}{6}\n{5 }{{}}{3:(bold)}\u{20ac}{7:} {1:?} {0}x{foo_1:(bold)}x{2:?}\u{20ac}{11}{{a}}{8:(bold)}{{a}}{9}é{9:?  }{10 }\u{20ac}", loop { break t(0) }, (t(1), 1).0, { let c = t(2); c }, if yes() { t(3) } else { Ch(0) }, Ch::from(t(4).0 as u8), -t(5), t(6) << 0, t(7) & Ch(127), (|| t(8))(), -t(9), loop { break t(10) }, -t(11), foo_1 = unsafe { t(14) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11], [Lit(32), Arg(9), Arg(3), Lit(10), Arg(7), Lit(195), Lit(169), Arg(0), Lit(226), Lit(130), Lit(172), Arg(3), Lit(125), Arg(2), Arg(1), Lit(195), Lit(169), Arg(10), Lit(10), Arg(5), Lit(123), Lit(125), Arg(10), Lit(195), Lit(169), Arg(6), Lit(123), Lit(125), Arg(8), Lit(123), Lit(97), Lit(125), Arg(4), Lit(32), Arg(11), Lit(48), Lit(125)], " {9:3}{3 }\n{7:3}é{:?  }\u{20ac}{3:?}}}{2 }{ }é{10:s}\n{5:s}{{}}{10}é{6}{{}}{8:s}{{a}}{4:s} {11:?}0}}", if yes() { t(0) } else { Ch(0) }, unsafe { t(1) }, Ch::from(t(2).0 as u8), [t(3)][0], id(t(4)), *&t(5), &t(6), id(t(7)), t(8) << 0, t(9) & Ch(127), &t(10), match t(11) { c => c }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11], [Lit(123), Arg(0), Lit(10), Arg(7), Lit(125), Arg(5), Lit(10), Arg(2), Arg(11), Arg(3), Lit(125), Arg(6), Arg(1), Lit(195), Lit(169), Bold(10), Arg(9), Arg(4), Lit(48), Lit(125), Arg(8), Lit(123)], "{{{0:?}\n{7:?  }}}{5:s}\n{2:?  }{11:s}{3}}}{6:s}{1 }é{10:(bold)}{9 }{4:s}0}}{8:3}{{", t(0) & Ch(127), Ch::from(t(1).0 as u8), loop { break t(2) }, match t(3) { c => c }, !t(4), t(5) << 0, { t(6) }, t(7) | Ch(0), match t(8) { c => c }, (|| t(9))(), { t(10) }, t(11) & Ch(127),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11], [Lit(32), Arg(0), Lit(125), Bold(2), Lit(123), Lit(97), Lit(125), Bold(9), Lit(10), Arg(5), Lit(120), Arg(3), Arg(8), Lit(123), Arg(1), Lit(123), Arg(4), Lit(123), Lit(125), Arg(10), Lit(32), Arg(11), Lit(48), Lit(125), Arg(7), Arg(6), Lit(123)], concat!(" {0:?  }}}{2:(bol", "d)}{{a}}{9:(bold)}\n{5:?}x{3:3}{8}{{{1:s}{{{4}{{}}{10:s} {11 }0}}{7:}{6 }{{"), (|| t(0))(), t(1) & Ch(127), loop { break t(2) }, t(3) | Ch(0), { t(4) }, { t(5) }, { t(6) }, match t(7) { c => c }, id(t(8)), !t(9), -t(10), { t(11) }),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 16], [Lit(10), Arg(0), Lit(123), Lit(125), Arg(11), Lit(120), Arg(10), Lit(48), Lit(125), Arg(6), Lit(48), Lit(125), Arg(5), Bold(8), Lit(120), Arg(9), Lit(123), Lit(97), Lit(125), Arg(1), Lit(10), Arg(2), Lit(48), Lit(125), Arg(16), Arg(4), Lit(123), Lit(125), Arg(7), Lit(195), Lit(169), Arg(3), Lit(48), Lit(125)], "\n{:3}{{}}{11:?}x{10:s}0}}{6:?}0}}{5:3}{8:(bold)}x{9:}{{a}}{}\n{2 }0}}{Zed:?  }{4:?  }{{}}{7}é{3}0}}", match t(0) { c => c }, t(1) & Ch(127), -t(2), unsafe { t(3) }, t(4), match t(5) { c => c }, -t(6), (t(7), 1).0, Ch::from(t(8).0 as u8), t(9) << 0, if yes() { t(10) } else { Ch(0) }, loop { break t(11) }, Zed = !t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 13 16], [Lit(120), Arg(7), Lit(123), Arg(13), Lit(48), Lit(125), Arg(16), Bold(10), Lit(32), Bold(4), Lit(10), Arg(0), Lit(123), Bold(1), Lit(123), Arg(3), Lit(10), Arg(6), Lit(195), Lit(169), Arg(11), Lit(123), Lit(97), Lit(125), Arg(8), Lit(123), Lit(97), Lit(125), Arg(5), Lit(125), Arg(2), Lit(120), Arg(9), Lit(123), Lit(125)], "x{7 }{{{b}0}}{Zed:3}{10:(bold)} {4:(bold)}\n{0 }{{{1:(bold)}{{{3:?  }\n{6}é{11:3}{{a}}{8}{{a}}{5 }}}{2:?}x{9}{{}}", !t(0), loop { break t(1) }, loop { break t(2) }, t(3), !t(4), !t(5), t(6) & Ch(127), id(t(7)), [t(8)][0], (|| t(9))(), [t(10)][0], unsafe { t(11) }, b = Ch(0) + t(13), Zed = { let c = t(16); c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 21 14 16], [Lit(123), Lit(125), Bold(10), Lit(195), Lit(169), Arg(4), Lit(123), Lit(97), Lit(125), Arg(6), Lit(195), Lit(169), Arg(5), Lit(226), Lit(130), Lit(172), Arg(21), Lit(32), Arg(9), Arg(11), Lit(48), Lit(125), Arg(7), Bold(8), Lit(123), Bold(3), Lit(123), Lit(97), Lit(125), Arg(2), Arg(30), Lit(123), Lit(97), Lit(125), Arg(1), Lit(10), Arg(14), Lit(123), Lit(125), Arg(0), Arg(16), Lit(123), Lit(125), Arg(11), Lit(125)], "{{}}{10:(bold)}é{4}{{a}}{6}é{5:?}\u{20ac}{é} {9:?  }{11:?  }0}}{7}{8:(bold)}{{{3:(bold)}{{a}}{2:3}{a_:3}{{a}}{1:}\n{foo_1 }{{}}{}{Zed}{{}}{11:}}}", -t(0), loop { break t(1) }, if yes() { t(2) } else { Ch(0) }, t(3), t(4) << 0, (|| t(5))(), unsafe { t(6) }, if yes() { t(7) } else { Ch(0) }, id(t(8)), &&t(9), *&t(10), match t(11) { c => c }, é = Ch::from(t(21).0 as u8), foo_1 = (|| t(14))(), Zed = (|| t(16))(),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 21 16 22], [Lit(48), Lit(125), Arg(6), Arg(23), Arg(9), Lit(120), Arg(8), Lit(195), Lit(169), Arg(11), Lit(32), Bold(0), Lit(120), Arg(5), Arg(1), Lit(120), Arg(2), Lit(48), Lit(125), Arg(22), Bold(4), Lit(120), Arg(10), Arg(16), Arg(7), Lit(123), Lit(125), Arg(3), Lit(123), Lit(125), Arg(21), Lit(123)], "0}}{6}{a:}{9:?}x{8:}é{11} {:(bold)}x{5 }{}x{:s}0}}{type}{4:(bold)}x{10}{Zed:}{7:?}{{}}{:?}{{}}{é}{{", t(0) & Ch(127), !t(1), t(2) << 0, id(t(3)), t(4).me(), !t(5), Ch(0) + t(6), id(t(7)), &t(8), { let c = t(9); c }, Ch(0) + t(10), if yes() { t(11) } else { Ch(0) }, é = t(21) | Ch(0), Zed = loop { break t(16) }, r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 20], [Lit(123), Arg(11), Arg(3), Lit(195), Lit(169), Arg(9), Bold(25), Lit(123), Lit(97), Lit(125), Arg(0), Lit(123), Arg(6), Lit(123), Lit(125), Arg(5), Lit(123), Lit(125), Arg(10), Lit(123), Lit(97), Lit(125), Arg(7), Lit(123), Lit(97), Lit(125), Arg(4), Arg(1), Lit(32), Bold(20), Lit(48), Lit(125), Arg(8), Lit(32), Arg(2), Lit(123), Lit(125)], "{{{11}{3}é{9:?}{foo_1:(bold)}{{a}}{ }{{{6}{{}}{5:?  }{{}}{10}{{a}}{7}{{a}}{4:}{:?  } {a1:(bold)}0}}{8} {2:3}{{}}", t(0) << 0, &t(1), { t(2) }, (t(3), 1).0, { t(4) }, *&t(5), t(6) | Ch(0), { let c = t(7); c }, Ch::from(t(8).0 as u8), (t(9), 1).0, unsafe { t(10) }, &t(11), a1 = Ch::from(t(20).0 as u8)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 12 21 22], [Lit(123), Lit(97), Lit(125), Arg(7), Lit(32), Arg(0), Lit(123), Lit(97), Lit(125), Bold(28), Lit(10), Arg(4), Lit(125), Arg(2), Lit(226), Lit(130), Lit(172), Arg(1), Lit(10), Arg(9), Lit(10), Arg(10), Lit(123), Lit(97), Lit(125), Arg(22), Lit(48), Lit(125), Bold(12), Lit(123), Arg(9), Lit(123), Lit(125), Arg(6), Lit(10), Arg(21), Lit(10), Arg(3), Lit(123), Lit(97), Lit(125), Arg(8), Lit(120), Arg(5), Lit(195), Lit(169), Arg(11), Lit(10)], "{{a}}{7:3} {0:3}{{a}}{A:(bold)}\n{4}}}{2:}\u{20ac}{1 }\n{9}\n{10:3}{{a}}{type }0}}{a:(bold)}{{{9:s}{{}}{6:?}\n{é }\n{3}{{a}}{8 }x{5}é{11}\n", t(0) | Ch(0), -t(1), { t(2) }, t(3), -t(4), Ch(0) + t(5), { let c = t(6); c }, t(7), Ch::from(t(8).0 as u8), *&t(9), t(10).me(), t(11), a = Ch::from(t(12).0 as u8), é = *&t(21), r#type = t(22)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 12], [Arg(1), Lit(123), Lit(97), Lit(125), Arg(3), Lit(48), Lit(125), Arg(8), Lit(32), Arg(6), Bold(4), Lit(226), Lit(130), Lit(172), Arg(0), Lit(123), Arg(5), Lit(123), Lit(125), Arg(9), Lit(32), Arg(2), Lit(32), Arg(10), Lit(48), Lit(125), Arg(7), Lit(123), Lit(97), Lit(125), Arg(12), Lit(125), Arg(11), Lit(32)], "{1:}{{a}}{3:s}0}}{8:s} {6:?  }{4:(bold)}\u{20ac}{:}{{{5}{{}}{9:3} {2:s} {10:?}0}}{7:s}{{a}}{a:?  }}}{11:?  } ", Ch::from(t(0).0 as u8), t(1), { t(2) }, if yes() { t(3) } else { Ch(0) }, t(4) | Ch(0), t(5), *&t(6), -t(7), Ch(0) + t(8), t(9).me(), Ch(0) + t(10), (|| t(11))(), a = t(12) << 0,),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 18], [Arg(7), Lit(123), Lit(97), Lit(125), Arg(4), Lit(195), Lit(169), Arg(5), Arg(2), Lit(32), Arg(24), Lit(195), Lit(169), Bold(27), Lit(32), Arg(0), Lit(123), Lit(125), Arg(10), Arg(8), Lit(32), Arg(8), Lit(32), Arg(6), Lit(48), Lit(125), Arg(1), Lit(195), Lit(169), Arg(3), Lit(195), Lit(169), Arg(9), Lit(123), Arg(3), Lit(123), Lit(125), Arg(11), Lit(195), Lit(169), Arg(18), Lit(32)], "{7 }{{a}}{4:?}é{5}{2} {b:?}é{Zed:(bold)} {}{{}}{10}{8:s} {8} {6:?}0}}{:?}é{3:?  }é{9:?}{{{3:?}{{}}{11 }é{ab} ", (|| t(0))(), (t(1), 1).0, (t(2), 1).0, loop { break t(3) }, &t(4), id(t(5)), Ch(0) + t(6), { t(7) }, &t(8), unsafe { t(9) }, { t(10) }, if yes() { t(11) } else { Ch(0) }, ab = t(18).me(),),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11 18], [Lit(123), Lit(125), Bold(10), Lit(123), Arg(9), Lit(226), Lit(130), Lit(172), Arg(2), Lit(48), Lit(125), Arg(4), Lit(195), Lit(169), Arg(8), Lit(125), Arg(5), Lit(32), Arg(11), Lit(123), Lit(97), Lit(125), Arg(3), Lit(123), Arg(7), Lit(123), Lit(97), Lit(125), Arg(18), Lit(123), Arg(5), Lit(125), Arg(1), Lit(120), Arg(6), Bold(0), Lit(10)], "{{}}{10:(bold)}{{{9:?}\u{20ac}{2:3}0}}{4}é{8:s}}}{5} {11:?  }{{a}}{3:s}{{{7:3}{{a}}{ab:3}{{{5 }}}{1:?  }x{6:?  }{:(bold)}\n", (|| t(0))(), &t(1), t(2) | Ch(0), [t(3)][0], { let c = t(4); c }, *&t(5), &&t(6), if yes() { t(7) } else { Ch(0) }, unsafe { t(8) }, Ch(0) + t(9), !t(10), !t(11), ab = { let c = t(18); c },),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3 4 5 6 7 8 9 10 11], [Arg(3), Arg(10), Lit(123), Lit(97), Lit(125), Arg(2), Lit(226), Lit(130), Lit(172), Arg(0), Lit(48), Lit(125), Arg(1), Lit(123), Lit(125), Arg(11), Lit(195), Lit(169), Arg(8), Lit(123), Lit(125), Arg(24), Lit(48), Lit(125), Arg(7), Lit(123), Lit(125), Arg(4), Lit(125), Arg(3), Arg(9), Lit(120), Arg(5), Lit(48), Lit(125), Arg(6)], "{3:?  }{10:?}{{a}}{2}\u{20ac}{0:s}0}}{1}{{}}{11:3}é{8:3}{{}}{b:}0}}{7:?}{{}}{4:}}}{3 }{9:3}x{5:s}0}}{6:?}", { let c = t(0); c }, if yes() { t(1) } else { Ch(0) }, (|| t(2))(), match t(3) { c => c }, { let c = t(4); c }, t(5) << 0, -t(6), unsafe { t(7) }, id(t(8)), t(9) | Ch(0), match t(10) { c => c }, (|| t(11))()),
];
pub static PAIRS: &[Row] = &[
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(24), Arg(23)], "{a}{b}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(24), Arg(12)], "{b}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(25), Arg(23)], "{a}{foo_1}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(25), Arg(12)], "{foo_1}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(26), Arg(23)], "{a}{_x}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(26), Arg(12)], "{_x}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(27), Arg(23)], "{a}{Zed}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(27), Arg(12)], "{Zed}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(28), Arg(23)], "{a}{A}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(28), Arg(12)], "{A}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(29), Arg(23)], "{a}{ab}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(29), Arg(12)], "{ab}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(30), Arg(23)], "{a}{a_}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(30), Arg(12)], "{a_}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(31), Arg(23)], "{a}{a1}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(31), Arg(12)], "{a1}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(23), Arg(32), Arg(23)], "{a}{é}{a}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(32), Arg(12)], "{é}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(23), Arg(24)], "{b}{a}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(23), Arg(13)], "{a}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(25), Arg(24)], "{b}{foo_1}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(25), Arg(13)], "{foo_1}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(26), Arg(24)], "{b}{_x}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(26), Arg(13)], "{_x}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(27), Arg(24)], "{b}{Zed}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(27), Arg(13)], "{Zed}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(28), Arg(24)], "{b}{A}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(28), Arg(13)], "{A}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(29), Arg(24)], "{b}{ab}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(29), Arg(13)], "{ab}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(30), Arg(24)], "{b}{a_}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(30), Arg(13)], "{a_}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(31), Arg(24)], "{b}{a1}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(31), Arg(13)], "{a1}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(24), Arg(32), Arg(24)], "{b}{é}{b}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [13], [Arg(32), Arg(13)], "{é}{b}", b = t(13)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(23), Arg(25)], "{foo_1}{a}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(23), Arg(14)], "{a}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(24), Arg(25)], "{foo_1}{b}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(24), Arg(14)], "{b}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(26), Arg(25)], "{foo_1}{_x}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(26), Arg(14)], "{_x}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(27), Arg(25)], "{foo_1}{Zed}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(27), Arg(14)], "{Zed}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(28), Arg(25)], "{foo_1}{A}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(28), Arg(14)], "{A}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(29), Arg(25)], "{foo_1}{ab}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(29), Arg(14)], "{ab}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(30), Arg(25)], "{foo_1}{a_}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(30), Arg(14)], "{a_}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(31), Arg(25)], "{foo_1}{a1}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(31), Arg(14)], "{a1}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(25), Arg(32), Arg(25)], "{foo_1}{é}{foo_1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [14], [Arg(32), Arg(14)], "{é}{foo_1}", foo_1 = t(14)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(23), Arg(26)], "{_x}{a}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(23), Arg(15)], "{a}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(24), Arg(26)], "{_x}{b}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(24), Arg(15)], "{b}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(25), Arg(26)], "{_x}{foo_1}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(25), Arg(15)], "{foo_1}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(27), Arg(26)], "{_x}{Zed}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(27), Arg(15)], "{Zed}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(28), Arg(26)], "{_x}{A}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(28), Arg(15)], "{A}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(29), Arg(26)], "{_x}{ab}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(29), Arg(15)], "{ab}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(30), Arg(26)], "{_x}{a_}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(30), Arg(15)], "{a_}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(31), Arg(26)], "{_x}{a1}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(31), Arg(15)], "{a1}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(26), Arg(32), Arg(26)], "{_x}{é}{_x}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [15], [Arg(32), Arg(15)], "{é}{_x}", _x = t(15)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(23), Arg(27)], "{Zed}{a}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(23), Arg(16)], "{a}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(24), Arg(27)], "{Zed}{b}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(24), Arg(16)], "{b}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(25), Arg(27)], "{Zed}{foo_1}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(25), Arg(16)], "{foo_1}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(26), Arg(27)], "{Zed}{_x}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(26), Arg(16)], "{_x}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(28), Arg(27)], "{Zed}{A}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(28), Arg(16)], "{A}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(29), Arg(27)], "{Zed}{ab}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(29), Arg(16)], "{ab}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(30), Arg(27)], "{Zed}{a_}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(30), Arg(16)], "{a_}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(31), Arg(27)], "{Zed}{a1}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(31), Arg(16)], "{a1}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(27), Arg(32), Arg(27)], "{Zed}{é}{Zed}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [16], [Arg(32), Arg(16)], "{é}{Zed}", Zed = t(16)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(23), Arg(28)], "{A}{a}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(23), Arg(17)], "{a}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(24), Arg(28)], "{A}{b}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(24), Arg(17)], "{b}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(25), Arg(28)], "{A}{foo_1}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(25), Arg(17)], "{foo_1}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(26), Arg(28)], "{A}{_x}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(26), Arg(17)], "{_x}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(27), Arg(28)], "{A}{Zed}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(27), Arg(17)], "{Zed}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(29), Arg(28)], "{A}{ab}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(29), Arg(17)], "{ab}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(30), Arg(28)], "{A}{a_}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(30), Arg(17)], "{a_}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(31), Arg(28)], "{A}{a1}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(31), Arg(17)], "{a1}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(28), Arg(32), Arg(28)], "{A}{é}{A}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [17], [Arg(32), Arg(17)], "{é}{A}", A = t(17)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(23), Arg(29)], "{ab}{a}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(23), Arg(18)], "{a}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(24), Arg(29)], "{ab}{b}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(24), Arg(18)], "{b}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(25), Arg(29)], "{ab}{foo_1}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(25), Arg(18)], "{foo_1}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(26), Arg(29)], "{ab}{_x}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(26), Arg(18)], "{_x}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(27), Arg(29)], "{ab}{Zed}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(27), Arg(18)], "{Zed}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(28), Arg(29)], "{ab}{A}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(28), Arg(18)], "{A}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(30), Arg(29)], "{ab}{a_}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(30), Arg(18)], "{a_}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(31), Arg(29)], "{ab}{a1}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(31), Arg(18)], "{a1}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(29), Arg(32), Arg(29)], "{ab}{é}{ab}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [18], [Arg(32), Arg(18)], "{é}{ab}", ab = t(18)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(23), Arg(30)], "{a_}{a}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(23), Arg(19)], "{a}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(24), Arg(30)], "{a_}{b}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(24), Arg(19)], "{b}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(25), Arg(30)], "{a_}{foo_1}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(25), Arg(19)], "{foo_1}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(26), Arg(30)], "{a_}{_x}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(26), Arg(19)], "{_x}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(27), Arg(30)], "{a_}{Zed}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(27), Arg(19)], "{Zed}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(28), Arg(30)], "{a_}{A}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(28), Arg(19)], "{A}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(29), Arg(30)], "{a_}{ab}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(29), Arg(19)], "{ab}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(31), Arg(30)], "{a_}{a1}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(31), Arg(19)], "{a1}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(30), Arg(32), Arg(30)], "{a_}{é}{a_}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [19], [Arg(32), Arg(19)], "{é}{a_}", a_ = t(19)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(23), Arg(31)], "{a1}{a}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(23), Arg(20)], "{a}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(24), Arg(31)], "{a1}{b}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(24), Arg(20)], "{b}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(25), Arg(31)], "{a1}{foo_1}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(25), Arg(20)], "{foo_1}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(26), Arg(31)], "{a1}{_x}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(26), Arg(20)], "{_x}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(27), Arg(31)], "{a1}{Zed}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(27), Arg(20)], "{Zed}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(28), Arg(31)], "{a1}{A}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(28), Arg(20)], "{A}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(29), Arg(31)], "{a1}{ab}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(29), Arg(20)], "{ab}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(30), Arg(31)], "{a1}{a_}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(30), Arg(20)], "{a_}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(31), Arg(32), Arg(31)], "{a1}{é}{a1}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [20], [Arg(32), Arg(20)], "{é}{a1}", a1 = t(20)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(23), Arg(32)], "{é}{a}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(23), Arg(21)], "{a}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(24), Arg(32)], "{é}{b}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(24), Arg(21)], "{b}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(25), Arg(32)], "{é}{foo_1}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(25), Arg(21)], "{foo_1}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(26), Arg(32)], "{é}{_x}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(26), Arg(21)], "{_x}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(27), Arg(32)], "{é}{Zed}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(27), Arg(21)], "{Zed}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(28), Arg(32)], "{é}{A}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(28), Arg(21)], "{A}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(29), Arg(32)], "{é}{ab}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(29), Arg(21)], "{ab}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(30), Arg(32)], "{é}{a_}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(30), Arg(21)], "{a_}{é}", é = t(21)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [], [Arg(32), Arg(31), Arg(32)], "{é}{a1}{é}"),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [21], [Arg(31), Arg(21)], "{a1}{é}", é = t(21)),
];
#[cfg(feature = "no-box")]
pub static SEQUENCES: &[Row] = &[];
#[cfg(not(feature = "no-box"))]
pub static SEQUENCES: &[Row] = &[
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0)], "{}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0)], "{0:s}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(12)], "{a:?}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1)], "{:(bold)}{}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Arg(0)], "{}{0:s}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1)], "{:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(12)], "{:?}{a:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Bold(0), Arg(0)], "{0:(bold)}{}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Arg(0)], "{0}{0:s}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1)], "{0:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(12)], "{0:?}{a:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0)], "{1:(bold)}{}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0)], "{1}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0)], "{a:s}{:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(0)], "{a:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Bold(12), Arg(12)], "{a:(bold)}{a}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(2)], "{}{:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Bold(0)], "{:s}{:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(1)], "{:?}{:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(1), Arg(2)], "{:(bold)}{}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Arg(12)], "{}{:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Bold(1)], "{:s}{0:?}{:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Bold(0), Arg(0)], "{:?}{0:(bold)}{0}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(0), Arg(1)], "{:(bold)}{0}{1:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Arg(12)], "{}{0:s}{a:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Bold(1)], "{:s}{1:?}{:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(0)], "{:?}{1:(bold)}{0}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(1)], "{:(bold)}{1}{1:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(2)], "{}{1:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(12)], "{:s}{1:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(2), Arg(1)], "{:?}{2:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(2), Arg(1)], "{:(bold)}{2}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Arg(1)], "{}{a:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Bold(0)], "{:s}{a:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(12), Arg(1)], "{:?}{a:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(12), Arg(12)], "{:(bold)}{a}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(1)], "{0}{:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Arg(0), Bold(0)], "{0:s}{:?}{0:(bold)}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(0), Arg(1)], "{0:?}{:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(0), Arg(12)], "{0:(bold)}{}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Arg(0), Arg(0)], "{0}{0:s}{:?}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Arg(0), Bold(0)], "{0:s}{0:?}{0:(bold)}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(0), Arg(1)], "{0:?}{0:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(0), Arg(12)], "{0:(bold)}{0}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Arg(0)], "{0}{1:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Bold(0)], "{0:s}{1:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(1)], "{0:?}{1:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(1), Arg(2)], "{0:(bold)}{1}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Arg(12)], "{0}{1:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Bold(1)], "{0:s}{2:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(12), Arg(0)], "{0:?}{a:(bold)}{}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(12), Arg(0)], "{0:(bold)}{a}{0:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Arg(1)], "{0}{a:s}{1:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Bold(12)], "{0:s}{a:?}{a:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Bold(0), Arg(1)], "{1:?}{:(bold)}{}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0), Arg(0)], "{1:(bold)}{}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Arg(1)], "{1}{:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Bold(2)], "{1:s}{:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(0), Arg(12)], "{1:?}{:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0), Arg(0)], "{1:(bold)}{0}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Arg(0)], "{1}{0:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Bold(1)], "{1:s}{0:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(0), Arg(2)], "{1:?}{0:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(0), Arg(12)], "{1:(bold)}{0}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(1), Arg(0)], "{1}{1:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(1), Bold(0)], "{1:s}{1:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(2), Arg(0)], "{1:?}{2:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(2), Arg(0)], "{1:(bold)}{2}{0:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Arg(0)], "{1}{a:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Bold(0)], "{1:s}{a:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(0), Arg(1)], "{2:?}{:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(0), Arg(1)], "{2:(bold)}{}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Arg(1)], "{2}{0:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Bold(0)], "{2:s}{1:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(1), Arg(0)], "{2:?}{1:(bold)}{0}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(0), Arg(1)], "{a:(bold)}{}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Arg(0)], "{a}{:s}{0:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(1)], "{a:s}{:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(0), Arg(12)], "{a:?}{:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(12), Arg(0), Arg(0)], "{a:(bold)}{0}{:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Arg(0)], "{a}{0:s}{0:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(1)], "{a:s}{0:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(0), Arg(12)], "{a:?}{0:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(1), Arg(0)], "{a:(bold)}{1}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(1), Arg(0)], "{a}{1:s}{0:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(12), Bold(0)], "{a:s}{a:?}{:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(12), Arg(0)], "{a:?}{a:(bold)}{0}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Bold(12), Arg(12), Arg(12)], "{a:(bold)}{a}{a:s}", a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 3], [Arg(0), Arg(1), Arg(2), Bold(3)], "{}{:s}{:?}{:(bold)}", t(0), t(1), t(2), t(3)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(2), Arg(0)], "{:s}{:?}{:(bold)}{0}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(1), Arg(2), Arg(1)], "{:?}{:(bold)}{}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(1), Arg(2), Arg(2)], "{:(bold)}{}{:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(1), Arg(2), Bold(12)], "{}{:s}{:?}{a:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(0), Arg(2)], "{:s}{:?}{0:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(0), Arg(0)], "{:?}{:(bold)}{0}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(0), Arg(1)], "{:(bold)}{}{0:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(0), Bold(2)], "{}{:s}{0:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(0), Arg(12)], "{:s}{:?}{0:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(1), Arg(1), Arg(2)], "{:?}{:(bold)}{1}{:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(1), Arg(0)], "{:(bold)}{}{1:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Arg(1), Bold(1)], "{}{:s}{1:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(1), Arg(2)], "{:s}{:?}{1:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(1), Arg(1), Arg(12)], "{:?}{:(bold)}{1}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(1), Arg(2), Arg(2)], "{:(bold)}{}{2:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(2), Bold(0)], "{}{:s}{2:?}{0:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(2), Arg(1)], "{:s}{:?}{2:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(1), Arg(2), Arg(2)], "{:?}{:(bold)}{2}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(0), Arg(1), Arg(2), Arg(12)], "{:(bold)}{}{2:s}{a:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(1), Arg(12), Bold(2)], "{}{:s}{a:?}{:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(12), Arg(0)], "{:s}{:?}{a:(bold)}{0}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(1), Arg(12), Arg(1)], "{:?}{:(bold)}{a}{1:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(0), Arg(1), Arg(12), Arg(2)], "{:(bold)}{}{a:s}{2:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Arg(12), Bold(12)], "{}{:s}{a:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Bold(1), Arg(2)], "{:s}{0:?}{:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(0), Arg(1), Arg(0)], "{:?}{0:(bold)}{}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(0), Arg(1), Arg(1)], "{:(bold)}{0}{:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Arg(1), Bold(2)], "{}{0:s}{:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(0), Bold(1), Arg(12)], "{:s}{0:?}{:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(0), Arg(0), Arg(1)], "{:?}{0:(bold)}{0}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Bold(0), Arg(0), Arg(0), Arg(0)], "{:(bold)}{0}{0:s}{0:?}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(0), Bold(1)], "{}{0:s}{0:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Bold(0), Arg(12)], "{:s}{0:?}{0:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(0), Arg(1), Arg(1)], "{:?}{0:(bold)}{1}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(0), Arg(1), Arg(0)], "{:(bold)}{0}{1:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(1), Bold(1)], "{}{0:s}{1:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Bold(1), Arg(2)], "{:s}{0:?}{1:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(0), Arg(1), Arg(12)], "{:?}{0:(bold)}{1}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(0), Arg(2), Arg(1)], "{:(bold)}{0}{2:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Arg(2), Bold(1)], "{}{0:s}{2:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(0), Bold(12), Arg(1)], "{:s}{0:?}{a:(bold)}{}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(0), Arg(12), Arg(0)], "{:?}{0:(bold)}{a}{0:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(0), Arg(12), Arg(1)], "{:(bold)}{0}{a:s}{1:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Arg(12), Bold(12)], "{}{0:s}{a:?}{a:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(1), Arg(2)], "{:s}{1:?}{:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(1), Arg(0)], "{:?}{1:(bold)}{}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(1), Arg(1)], "{:(bold)}{1}{:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(1), Bold(2)], "{}{1:s}{:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(1), Arg(12)], "{:s}{1:?}{:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(0), Arg(1)], "{:?}{1:(bold)}{0}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(0), Arg(0)], "{:(bold)}{1}{0:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Arg(0), Bold(1)], "{}{1:s}{0:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(0), Arg(2)], "{:s}{1:?}{0:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(1), Arg(0), Arg(12)], "{:?}{1:(bold)}{0}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(1), Arg(1)], "{:(bold)}{1}{1:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Arg(1), Bold(0)], "{}{1:s}{1:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Bold(1), Arg(1)], "{:s}{1:?}{1:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(1), Arg(1), Arg(2)], "{:?}{1:(bold)}{1}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(1), Arg(1), Arg(12)], "{:(bold)}{1}{1:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(2), Bold(1)], "{}{1:s}{2:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(2), Arg(0)], "{:s}{1:?}{2:(bold)}{0}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(1), Arg(2), Arg(1)], "{:?}{1:(bold)}{2}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(1), Arg(2), Arg(2)], "{:(bold)}{1}{2:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(1), Arg(2), Bold(12)], "{}{1:s}{2:?}{a:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(12), Arg(1)], "{:s}{1:?}{a:(bold)}{}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(1), Arg(12), Arg(0)], "{:?}{1:(bold)}{a}{0:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(1), Arg(12), Arg(1)], "{:(bold)}{1}{a:s}{1:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(1), Arg(12), Bold(2)], "{}{1:s}{a:?}{2:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(12), Arg(12)], "{:s}{1:?}{a:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(2), Arg(1), Arg(2)], "{:?}{2:(bold)}{}{:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(2), Arg(1), Arg(0)], "{:(bold)}{2}{:s}{0:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Arg(1), Bold(1)], "{}{2:s}{:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Bold(1), Arg(2)], "{:s}{2:?}{:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Bold(2), Arg(1), Arg(12)], "{:?}{2:(bold)}{}{a:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(2), Arg(0), Arg(1)], "{:(bold)}{2}{0:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Arg(0), Bold(1)], "{}{2:s}{0:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Bold(1), Arg(1)], "{:s}{2:?}{1:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(2), Arg(1), Arg(0)], "{:?}{2:(bold)}{1}{0:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(2), Arg(1), Arg(1)], "{:(bold)}{2}{1:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Arg(1), Bold(2)], "{}{2:s}{1:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(2), Bold(1), Arg(12)], "{:s}{2:?}{1:(bold)}{a}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(2), Arg(2), Arg(1)], "{:?}{2:(bold)}{2}{:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(2), Arg(2), Arg(1)], "{:(bold)}{2}{2:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(2), Arg(12), Bold(1)], "{}{2:s}{a:?}{:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(2), Bold(12), Arg(1)], "{:s}{2:?}{a:(bold)}{1}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Bold(12), Arg(1), Arg(2)], "{:?}{a:(bold)}{}{:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(1), Arg(0)], "{:(bold)}{a}{:s}{0:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Arg(1), Bold(1)], "{}{a:s}{:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(12), Bold(1), Arg(2)], "{:s}{a:?}{:(bold)}{2}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(12), Arg(1), Arg(12)], "{:?}{a:(bold)}{}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(0), Arg(1)], "{:(bold)}{a}{0:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Arg(0), Bold(0)], "{}{a:s}{0:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Bold(0), Arg(1)], "{:s}{a:?}{0:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(12), Arg(0), Arg(12)], "{:?}{a:(bold)}{0}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(1), Arg(1)], "{:(bold)}{a}{1:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Arg(1), Bold(0)], "{}{a:s}{1:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Bold(1), Arg(1)], "{:s}{a:?}{1:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Bold(12), Arg(1), Arg(2)], "{:?}{a:(bold)}{1}{2:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(1), Arg(12)], "{:(bold)}{a}{1:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(12), Arg(2), Bold(1)], "{}{a:s}{2:?}{:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(12), Bold(2), Arg(1)], "{:s}{a:?}{2:(bold)}{1}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(12), Arg(12), Arg(1)], "{:?}{a:(bold)}{a}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(12), Arg(12), Arg(0)], "{:(bold)}{a}{a:s}{0:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Arg(12), Bold(1)], "{}{a:s}{a:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Bold(12), Arg(12)], "{:s}{a:?}{a:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(0), Arg(1), Arg(2)], "{0:?}{:(bold)}{}{:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(0), Arg(1), Arg(0)], "{0:(bold)}{}{:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(1), Bold(1)], "{0}{:s}{:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Bold(1), Arg(2)], "{0:s}{:?}{:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(0), Arg(1), Arg(12)], "{0:?}{:(bold)}{}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(0), Arg(0), Arg(1)], "{0:(bold)}{}{0:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Arg(0), Arg(0), Bold(0)], "{0}{:s}{0:?}{0:(bold)}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Bold(0), Arg(1)], "{0:s}{:?}{0:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(0), Arg(0), Arg(12)], "{0:?}{:(bold)}{0}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(0), Arg(1), Arg(1)], "{0:(bold)}{}{1:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(1), Bold(0)], "{0}{:s}{1:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Bold(1), Arg(1)], "{0:s}{:?}{1:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(0), Arg(1), Arg(2)], "{0:?}{:(bold)}{1}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(0), Arg(1), Arg(12)], "{0:(bold)}{}{1:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Arg(2), Bold(1)], "{0}{:s}{2:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Bold(2), Arg(1)], "{0:s}{:?}{2:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(0), Arg(12), Arg(1)], "{0:?}{:(bold)}{a}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(0), Arg(12), Arg(0)], "{0:(bold)}{}{a:s}{0:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(0), Arg(12), Bold(1)], "{0}{:s}{a:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Bold(12), Arg(12)], "{0:s}{:?}{a:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(0), Arg(0), Arg(1)], "{0:?}{0:(bold)}{}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Bold(0), Arg(0), Arg(0), Arg(0)], "{0:(bold)}{0}{:s}{0:?}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(0), Bold(1)], "{0}{0:s}{:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Bold(0), Arg(12)], "{0:s}{0:?}{:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Arg(0), Bold(0), Arg(0), Arg(0)], "{0:?}{0:(bold)}{0}{:s}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0], [Bold(0), Arg(0), Arg(0), Arg(0)], "{0:(bold)}{0}{0:s}{0:?}", t(0)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(0), Bold(1)], "{0}{0:s}{0:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Bold(0), Arg(12)], "{0:s}{0:?}{0:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(0), Arg(1), Arg(0)], "{0:?}{0:(bold)}{1}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(0), Arg(1), Arg(0)], "{0:(bold)}{0}{1:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(0), Arg(1), Bold(1)], "{0}{0:s}{1:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(0), Bold(1), Arg(2)], "{0:s}{0:?}{1:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(0), Arg(1), Arg(12)], "{0:?}{0:(bold)}{1}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(0), Arg(2), Arg(1)], "{0:(bold)}{0}{2:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Arg(12), Bold(0)], "{0}{0:s}{a:?}{:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(0), Bold(12), Arg(0)], "{0:s}{0:?}{a:(bold)}{0}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(0), Arg(12), Arg(1)], "{0:?}{0:(bold)}{a}{1:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(0), Arg(12), Arg(12)], "{0:(bold)}{0}{a:s}{a:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Arg(0), Bold(1)], "{0}{1:s}{:?}{:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Bold(0), Arg(0)], "{0:s}{1:?}{:(bold)}{0}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(0), Arg(1)], "{0:?}{1:(bold)}{}{1:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(1), Arg(0), Arg(2)], "{0:(bold)}{1}{:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Arg(0), Bold(12)], "{0}{1:s}{:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Bold(0), Arg(0)], "{0:s}{1:?}{0:(bold)}{}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(0), Arg(0)], "{0:?}{1:(bold)}{0}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(0), Arg(1)], "{0:(bold)}{1}{0:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(0), Bold(2)], "{0}{1:s}{0:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(0), Arg(12)], "{0:s}{1:?}{0:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Bold(1), Arg(1), Arg(0)], "{0:?}{1:(bold)}{1}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(0), Arg(1), Arg(1), Arg(0)], "{0:(bold)}{1}{1:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(0), Arg(1), Arg(1), Bold(1)], "{0}{1:s}{1:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(1), Arg(2)], "{0:s}{1:?}{1:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(1), Arg(1), Arg(12)], "{0:?}{1:(bold)}{1}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(1), Arg(2), Arg(0)], "{0:(bold)}{1}{2:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Arg(2), Bold(0)], "{0}{1:s}{2:?}{0:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(1), Bold(2), Arg(1)], "{0:s}{1:?}{2:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(1), Arg(2), Arg(2)], "{0:?}{1:(bold)}{2}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(0), Arg(1), Arg(2), Arg(12)], "{0:(bold)}{1}{2:s}{a:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Arg(12), Bold(0)], "{0}{1:s}{a:?}{:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Bold(12), Arg(0)], "{0:s}{1:?}{a:(bold)}{0}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Bold(1), Arg(12), Arg(1)], "{0:?}{1:(bold)}{a}{1:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(0), Arg(1), Arg(12), Arg(2)], "{0:(bold)}{1}{a:s}{2:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(1), Arg(12), Bold(12)], "{0}{1:s}{a:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Bold(0), Arg(1)], "{0:s}{2:?}{:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(2), Arg(0), Arg(1)], "{0:?}{2:(bold)}{}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(2), Arg(0), Arg(1)], "{0:(bold)}{2}{0:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Arg(1), Bold(0)], "{0}{2:s}{1:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Bold(1), Arg(0)], "{0:s}{2:?}{1:(bold)}{0}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Bold(2), Arg(1), Arg(1)], "{0:?}{2:(bold)}{1}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(0), Arg(2), Arg(1), Arg(2)], "{0:(bold)}{2}{1:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(2), Arg(1), Bold(12)], "{0}{2:s}{1:?}{a:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(0), Arg(2), Bold(2), Arg(1)], "{0:s}{2:?}{2:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Bold(2), Arg(12), Arg(1)], "{0:?}{2:(bold)}{a}{1:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(0), Arg(1)], "{0:(bold)}{a}{:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Arg(0), Bold(0)], "{0}{a:s}{:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Bold(0), Arg(1)], "{0:s}{a:?}{:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(12), Arg(0), Arg(12)], "{0:?}{a:(bold)}{}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(0), Arg(12), Arg(0), Arg(0)], "{0:(bold)}{a}{0:s}{:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Arg(0), Bold(0)], "{0}{a:s}{0:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Bold(0), Arg(1)], "{0:s}{a:?}{0:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(12), Arg(0), Arg(12)], "{0:?}{a:(bold)}{0}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(1), Arg(0)], "{0:(bold)}{a}{1:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Arg(1), Bold(0)], "{0}{a:s}{1:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(0), Arg(12), Bold(1), Arg(1)], "{0:s}{a:?}{1:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Bold(12), Arg(1), Arg(2)], "{0:?}{a:(bold)}{1}{2:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(1), Arg(12)], "{0:(bold)}{a}{1:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(0), Arg(12), Arg(2), Bold(1)], "{0}{a:s}{2:?}{1:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Bold(12), Arg(0)], "{0:s}{a:?}{a:(bold)}{}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Bold(12), Arg(12), Arg(0)], "{0:?}{a:(bold)}{a}{0:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(0), Arg(12), Arg(12), Arg(1)], "{0:(bold)}{a}{a:s}{1:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(0), Arg(12), Arg(12), Bold(12)], "{0}{a:s}{a:?}{a:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Bold(1), Arg(2)], "{1:s}{:?}{:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Bold(0), Arg(1), Arg(0)], "{1:?}{:(bold)}{}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0), Arg(1), Arg(1)], "{1:(bold)}{}{:s}{1:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Arg(1), Bold(2)], "{1}{:s}{:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(0), Bold(1), Arg(12)], "{1:s}{:?}{:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Bold(0), Arg(0), Arg(1)], "{1:?}{:(bold)}{0}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0), Arg(0), Arg(0)], "{1:(bold)}{}{0:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Arg(0), Bold(1)], "{1}{:s}{0:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Bold(0), Arg(2)], "{1:s}{:?}{0:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(0), Arg(0), Arg(12)], "{1:?}{:(bold)}{0}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0), Arg(1), Arg(1)], "{1:(bold)}{}{1:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Arg(1), Bold(0)], "{1}{:s}{1:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Bold(1), Arg(1)], "{1:s}{:?}{1:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(0), Arg(1), Arg(2)], "{1:?}{:(bold)}{1}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(0), Arg(1), Arg(12)], "{1:(bold)}{}{1:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Arg(2), Bold(1)], "{1}{:s}{2:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Bold(2), Arg(0)], "{1:s}{:?}{2:(bold)}{0}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(0), Arg(2), Arg(1)], "{1:?}{:(bold)}{2}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(0), Arg(2), Arg(2)], "{1:(bold)}{}{2:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Arg(0), Arg(2), Bold(12)], "{1}{:s}{2:?}{a:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(0), Bold(12), Arg(1)], "{1:s}{:?}{a:(bold)}{}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(0), Arg(12), Arg(0)], "{1:?}{:(bold)}{a}{0:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(0), Arg(12), Arg(1)], "{1:(bold)}{}{a:s}{1:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Arg(0), Arg(12), Bold(2)], "{1}{:s}{a:?}{2:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(0), Bold(12), Arg(12)], "{1:s}{:?}{a:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Bold(0), Arg(0), Arg(1)], "{1:?}{0:(bold)}{}{:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0), Arg(0), Arg(0)], "{1:(bold)}{0}{:s}{0:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Arg(0), Bold(1)], "{1}{0:s}{:?}{1:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Bold(0), Arg(2)], "{1:s}{0:?}{:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(0), Arg(0), Arg(12)], "{1:?}{0:(bold)}{}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(0), Arg(0), Arg(0)], "{1:(bold)}{0}{0:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Arg(0), Bold(0)], "{1}{0:s}{0:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Bold(0), Arg(1)], "{1:s}{0:?}{0:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(0), Arg(0), Arg(2)], "{1:?}{0:(bold)}{0}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(0), Arg(0), Arg(12)], "{1:(bold)}{0}{0:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Arg(1), Bold(0)], "{1}{0:s}{1:?}{:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(0), Bold(1), Arg(0)], "{1:s}{0:?}{1:(bold)}{0}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Bold(0), Arg(1), Arg(1)], "{1:?}{0:(bold)}{1}{1:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(0), Arg(1), Arg(2)], "{1:(bold)}{0}{1:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(0), Arg(1), Bold(12)], "{1}{0:s}{1:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Bold(2), Arg(0)], "{1:s}{0:?}{2:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(0), Arg(2), Arg(0)], "{1:?}{0:(bold)}{2}{0:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(0), Arg(2), Arg(1)], "{1:(bold)}{0}{2:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(0), Arg(2), Bold(2)], "{1}{0:s}{2:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Arg(0), Bold(2), Arg(12)], "{1:s}{0:?}{2:(bold)}{a}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(0), Arg(12), Arg(0)], "{1:?}{0:(bold)}{a}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(0), Arg(12), Arg(0)], "{1:(bold)}{0}{a:s}{0:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(0), Arg(12), Bold(1)], "{1}{0:s}{a:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Arg(0), Bold(12), Arg(2)], "{1:s}{0:?}{a:(bold)}{2}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(0), Arg(12), Arg(12)], "{1:?}{0:(bold)}{a}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Bold(1), Arg(1), Arg(0), Arg(1)], "{1:(bold)}{1}{:s}{:?}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(1), Arg(0), Bold(0)], "{1}{1:s}{:?}{0:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(1), Bold(0), Arg(1)], "{1:s}{1:?}{:(bold)}{1}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(1), Arg(0), Arg(2)], "{1:?}{1:(bold)}{}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(1), Arg(0), Arg(12)], "{1:(bold)}{1}{:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(1), Arg(0), Bold(0)], "{1}{1:s}{0:?}{:(bold)}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(1), Bold(0), Arg(0)], "{1:s}{1:?}{0:(bold)}{0}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Bold(1), Arg(0), Arg(1)], "{1:?}{1:(bold)}{0}{1:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(1), Arg(0), Arg(2)], "{1:(bold)}{1}{0:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(1), Arg(0), Bold(12)], "{1}{1:s}{0:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Arg(1), Bold(1), Arg(0)], "{1:s}{1:?}{1:(bold)}{}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1], [Arg(1), Bold(1), Arg(1), Arg(0)], "{1:?}{1:(bold)}{1}{0:s}", t(0), t(1)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(1), Arg(2), Arg(0)], "{1:(bold)}{1}{2:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(1), Arg(2), Bold(0)], "{1}{1:s}{2:?}{0:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(1), Bold(12), Arg(0)], "{1:s}{1:?}{a:(bold)}{}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(1), Arg(12), Arg(0)], "{1:?}{1:(bold)}{a}{0:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(2), Arg(0), Arg(1)], "{1:(bold)}{2}{:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(2), Arg(0), Bold(0)], "{1}{2:s}{:?}{0:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(2), Bold(0), Arg(1)], "{1:s}{2:?}{:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(2), Arg(0), Arg(2)], "{1:?}{2:(bold)}{}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(1), Arg(2), Arg(0), Arg(12)], "{1:(bold)}{2}{:s}{a:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(2), Arg(0), Bold(0)], "{1}{2:s}{0:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(2), Bold(0), Arg(0)], "{1:s}{2:?}{0:(bold)}{0}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(2), Arg(0), Arg(1)], "{1:?}{2:(bold)}{0}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(2), Arg(0), Arg(2)], "{1:(bold)}{2}{0:s}{2:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Arg(2), Arg(0), Bold(12)], "{1}{2:s}{0:?}{a:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(2), Bold(1), Arg(0)], "{1:s}{2:?}{1:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Bold(2), Arg(1), Arg(0)], "{1:?}{2:(bold)}{1}{0:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(1), Arg(2), Arg(2), Arg(0)], "{1:(bold)}{2}{2:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(1), Arg(2), Arg(2), Bold(0)], "{1}{2:s}{2:?}{0:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Arg(2), Bold(12), Arg(0)], "{1:s}{2:?}{a:(bold)}{}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Bold(2), Arg(12), Arg(0)], "{1:?}{2:(bold)}{a}{0:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(12), Arg(0), Arg(1)], "{1:(bold)}{a}{:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Arg(0), Bold(0)], "{1}{a:s}{:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Bold(0), Arg(1)], "{1:s}{a:?}{:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Bold(12), Arg(0), Arg(2)], "{1:?}{a:(bold)}{}{2:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(1), Arg(12), Arg(0), Arg(12)], "{1:(bold)}{a}{:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Arg(0), Bold(0)], "{1}{a:s}{0:?}{:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Bold(0), Arg(0)], "{1:s}{a:?}{0:(bold)}{0}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(12), Arg(0), Arg(1)], "{1:?}{a:(bold)}{0}{1:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(1), Arg(12), Arg(0), Arg(2)], "{1:(bold)}{a}{0:s}{2:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Arg(0), Bold(12)], "{1}{a:s}{0:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Bold(1), Arg(0)], "{1:s}{a:?}{1:(bold)}{}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(12), Arg(1), Arg(0)], "{1:?}{a:(bold)}{1}{0:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(1), Arg(12), Arg(2), Arg(0)], "{1:(bold)}{a}{2:s}{:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(1), Arg(12), Arg(2), Bold(0)], "{1}{a:s}{2:?}{0:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Arg(12), Bold(12), Arg(0)], "{1:s}{a:?}{a:(bold)}{}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(1), Bold(12), Arg(12), Arg(0)], "{1:?}{a:(bold)}{a}{0:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(0), Arg(1), Arg(2)], "{2:(bold)}{}{:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Arg(1), Bold(0)], "{2}{:s}{:?}{0:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Bold(1), Arg(1)], "{2:s}{:?}{:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(0), Arg(1), Arg(2)], "{2:?}{:(bold)}{}{2:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(2), Arg(0), Arg(1), Arg(12)], "{2:(bold)}{}{:s}{a:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Arg(0), Bold(1)], "{2}{:s}{0:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Bold(0), Arg(1)], "{2:s}{:?}{0:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(0), Arg(1), Arg(1)], "{2:?}{:(bold)}{1}{:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(0), Arg(1), Arg(0)], "{2:(bold)}{}{1:s}{0:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Arg(1), Bold(1)], "{2}{:s}{1:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Bold(1), Arg(2)], "{2:s}{:?}{1:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Bold(0), Arg(1), Arg(12)], "{2:?}{:(bold)}{1}{a:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(0), Arg(2), Arg(1)], "{2:(bold)}{}{2:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Arg(2), Bold(1)], "{2}{:s}{2:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Arg(0), Bold(12), Arg(1)], "{2:s}{:?}{a:(bold)}{}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Bold(0), Arg(12), Arg(1)], "{2:?}{:(bold)}{a}{1:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(0), Arg(0), Arg(1)], "{2:(bold)}{0}{:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Arg(0), Bold(1)], "{2}{0:s}{:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Bold(0), Arg(1)], "{2:s}{0:?}{0:(bold)}{1}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(0), Arg(1), Arg(0)], "{2:?}{0:(bold)}{1}{:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(0), Arg(1), Arg(0)], "{2:(bold)}{0}{1:s}{0:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Arg(1), Bold(1)], "{2}{0:s}{1:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(0), Bold(1), Arg(2)], "{2:s}{0:?}{1:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Bold(0), Arg(1), Arg(12)], "{2:?}{0:(bold)}{1}{a:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(0), Arg(2), Arg(1)], "{2:(bold)}{0}{2:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Arg(0), Arg(12), Bold(1)], "{2}{0:s}{a:?}{1:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Bold(0), Arg(1)], "{2:s}{1:?}{:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(1), Arg(0), Arg(0)], "{2:?}{1:(bold)}{}{0:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(1), Arg(0), Arg(1)], "{2:(bold)}{1}{:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Arg(0), Bold(2)], "{2}{1:s}{:?}{2:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Arg(1), Bold(0), Arg(12)], "{2:s}{1:?}{:(bold)}{a}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(1), Arg(0), Arg(0)], "{2:?}{1:(bold)}{0}{:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(1), Arg(0), Arg(0)], "{2:(bold)}{1}{0:s}{0:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Arg(0), Bold(1)], "{2}{1:s}{0:?}{1:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Bold(0), Arg(2)], "{2:s}{1:?}{0:(bold)}{2}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Bold(1), Arg(0), Arg(12)], "{2:?}{1:(bold)}{0}{a:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(1), Arg(1), Arg(0)], "{2:(bold)}{1}{1:s}{:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Arg(1), Bold(0)], "{2}{1:s}{1:?}{0:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(1), Bold(2), Arg(0)], "{2:s}{1:?}{2:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(1), Arg(2), Arg(0)], "{2:?}{1:(bold)}{2}{0:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(2), Arg(1), Arg(12), Arg(0)], "{2:(bold)}{1}{a:s}{:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Arg(1), Arg(12), Bold(0)], "{2}{1:s}{a:?}{0:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(2), Bold(0), Arg(1)], "{2:s}{2:?}{:(bold)}{}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Bold(2), Arg(0), Arg(1)], "{2:?}{2:(bold)}{}{1:s}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Bold(2), Arg(2), Arg(0), Arg(1)], "{2:(bold)}{2}{0:s}{1:?}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(2), Arg(1), Bold(0)], "{2}{2:s}{1:?}{:(bold)}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2], [Arg(2), Arg(2), Bold(1), Arg(0)], "{2:s}{2:?}{1:(bold)}{0}", t(0), t(1), t(2)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Bold(12), Arg(0), Arg(1)], "{2:?}{a:(bold)}{}{:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(2), Arg(12), Arg(0), Arg(1)], "{2:(bold)}{a}{:s}{1:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Arg(12), Arg(0), Bold(1)], "{2}{a:s}{0:?}{1:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Arg(12), Bold(1), Arg(0)], "{2:s}{a:?}{1:(bold)}{}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(2), Bold(12), Arg(1), Arg(0)], "{2:?}{a:(bold)}{1}{0:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(12), Arg(0), Arg(1), Arg(2)], "{a:(bold)}{}{:s}{:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Arg(1), Bold(0)], "{a}{:s}{:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(1), Arg(1)], "{a:s}{:?}{:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Bold(0), Arg(1), Arg(2)], "{a:?}{:(bold)}{}{2:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(0), Arg(1), Arg(12)], "{a:(bold)}{}{:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Arg(0), Bold(1)], "{a}{:s}{0:?}{:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Bold(0), Arg(0)], "{a:s}{:?}{0:(bold)}{0}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Bold(0), Arg(0), Arg(1)], "{a:?}{:(bold)}{0}{1:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(12), Arg(0), Arg(0), Arg(12)], "{a:(bold)}{}{0:s}{a:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Arg(1), Bold(1)], "{a}{:s}{1:?}{:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(1), Arg(0)], "{a:s}{:?}{1:(bold)}{0}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Bold(0), Arg(1), Arg(1)], "{a:?}{:(bold)}{1}{1:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(12), Arg(0), Arg(1), Arg(2)], "{a:(bold)}{}{1:s}{2:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Arg(1), Bold(12)], "{a}{:s}{1:?}{a:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(0), Bold(2), Arg(1)], "{a:s}{:?}{2:(bold)}{}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Bold(0), Arg(2), Arg(1)], "{a:?}{:(bold)}{2}{1:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(0), Arg(12), Arg(1)], "{a:(bold)}{}{a:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Arg(12), Bold(0)], "{a}{:s}{a:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(12), Arg(1)], "{a:s}{:?}{a:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(0), Arg(12), Arg(12)], "{a:?}{:(bold)}{a}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(0), Arg(0), Arg(1)], "{a:(bold)}{0}{:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Arg(0), Bold(0)], "{a}{0:s}{:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(0), Arg(1)], "{a:s}{0:?}{:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(0), Arg(0), Arg(12)], "{a:?}{0:(bold)}{}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(12), Arg(0), Arg(0), Arg(0)], "{a:(bold)}{0}{0:s}{:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Arg(0), Bold(0)], "{a}{0:s}{0:?}{0:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(0), Arg(1)], "{a:s}{0:?}{0:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(0), Arg(0), Arg(12)], "{a:?}{0:(bold)}{0}{a:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(0), Arg(1), Arg(0)], "{a:(bold)}{0}{1:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Arg(1), Bold(0)], "{a}{0:s}{1:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(0), Bold(1), Arg(1)], "{a:s}{0:?}{1:(bold)}{1}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Bold(0), Arg(1), Arg(2)], "{a:?}{0:(bold)}{1}{2:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(0), Arg(1), Arg(12)], "{a:(bold)}{0}{1:s}{a:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(0), Arg(2), Bold(1)], "{a}{0:s}{2:?}{1:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Bold(12), Arg(0)], "{a:s}{0:?}{a:(bold)}{}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(0), Arg(12), Arg(0)], "{a:?}{0:(bold)}{a}{0:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(0), Arg(12), Arg(1)], "{a:(bold)}{0}{a:s}{1:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(0), Arg(12), Bold(12)], "{a}{0:s}{a:?}{a:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(1), Bold(0), Arg(1)], "{a:s}{1:?}{:(bold)}{}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Bold(1), Arg(0), Arg(0)], "{a:?}{1:(bold)}{}{0:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(1), Arg(0), Arg(1)], "{a:(bold)}{1}{:s}{1:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(1), Arg(0), Bold(2)], "{a}{1:s}{:?}{2:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(1), Bold(0), Arg(12)], "{a:s}{1:?}{:(bold)}{a}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Bold(1), Arg(0), Arg(0)], "{a:?}{1:(bold)}{0}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(1), Arg(0), Arg(0)], "{a:(bold)}{1}{0:s}{0:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(1), Arg(0), Bold(1)], "{a}{1:s}{0:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(1), Bold(0), Arg(2)], "{a:s}{1:?}{0:(bold)}{2}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Bold(1), Arg(0), Arg(12)], "{a:?}{1:(bold)}{0}{a:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(1), Arg(1), Arg(0)], "{a:(bold)}{1}{1:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(1), Arg(1), Bold(0)], "{a}{1:s}{1:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(1), Bold(2), Arg(0)], "{a:s}{1:?}{2:(bold)}{}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Bold(1), Arg(2), Arg(0)], "{a:?}{1:(bold)}{2}{0:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(1), Arg(12), Arg(0)], "{a:(bold)}{1}{a:s}{:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(1), Arg(12), Bold(0)], "{a}{1:s}{a:?}{0:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(2), Bold(0), Arg(1)], "{a:s}{2:?}{:(bold)}{}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Bold(2), Arg(0), Arg(1)], "{a:?}{2:(bold)}{}{1:s}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Bold(12), Arg(2), Arg(0), Arg(1)], "{a:(bold)}{2}{0:s}{1:?}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(2), Arg(1), Bold(0)], "{a}{2:s}{1:?}{:(bold)}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 2 12], [Arg(12), Arg(2), Bold(1), Arg(0)], "{a:s}{2:?}{1:(bold)}{0}", t(0), t(1), t(2), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Bold(12), Arg(0), Arg(1)], "{a:?}{a:(bold)}{}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(12), Arg(12), Arg(0), Arg(0)], "{a:(bold)}{a}{:s}{0:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(12), Arg(0), Bold(1)], "{a}{a:s}{:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(12), Bold(0), Arg(12)], "{a:s}{a:?}{:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Bold(12), Arg(0), Arg(0)], "{a:?}{a:(bold)}{0}{:s}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Bold(12), Arg(12), Arg(0), Arg(0)], "{a:(bold)}{a}{0:s}{0:?}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Arg(12), Arg(0), Bold(1)], "{a}{a:s}{0:?}{1:(bold)}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(12), Bold(0), Arg(12)], "{a:s}{a:?}{0:(bold)}{a}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Arg(12), Bold(12), Arg(1), Arg(0)], "{a:?}{a:(bold)}{1}{:s}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 1 12], [Bold(12), Arg(12), Arg(1), Arg(0)], "{a:(bold)}{a}{1:s}{0:?}", t(0), t(1), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(12), Arg(12), Bold(0)], "{a}{a:s}{a:?}{:(bold)}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [0 12], [Arg(12), Arg(12), Bold(12), Arg(0)], "{a:s}{a:?}{a:(bold)}{0}", t(0), a = t(12)),
    row!((a b foo_1 _x Zed A ab a_ a1 é t) [12], [Arg(12), Bold(12), Arg(12), Arg(12)], "{a:?}{a:(bold)}{a}{a:s}", a = t(12)),
];
