use crate::{model::*, nd};
use stylish::{Restyle, Style, StyleDiff};

fn any_diff(hf: bool, hb: bool, hi: bool, s: St) -> StyleDiff {
    let mut d = StyleDiff::default();
    if hf { d.foreground = Some(color(s.f)); }
    if hb { d.background = Some(color(s.b)); }
    if hi { d.intensity = Some(intensity(s.i)); }
    d
}

harnesses! {
    [3] fn q_diff_names_and_reconstructs() {
        let (a, b) = (St::any(), St::any());
        let d = b.style().diff_from(a.style());
        assert!(d.foreground.map(color_index) == if a.f == b.f { None } else { Some(b.f) }, "foreground named exactly when it differs");
        assert!(d.background.map(color_index) == if a.b == b.b { None } else { Some(b.b) }, "background named exactly when it differs");
        assert!(d.intensity.map(intensity_index) == if a.i == b.i { None } else { Some(b.i) }, "intensity named exactly when it differs");
        assert!(St::of(a.style().with(d)) == b, "with(diff) reconstructs");
        assert!(St::of(d.apply(a.style())) == b, "apply(diff) reconstructs");
        assert!((a.style() == b.style()) == (a == b), "style equality is componentwise");
        assert!((d == StyleDiff::default()) == (a == b), "empty diff exactly for equal styles");
    }
    [3] fn q_any_diff_sets_only_named() {
        let (a, s) = (St::any(), St::any());
        let (hf, hb, hi) = (nd::bool(), nd::bool(), nd::bool());
        let d = any_diff(hf, hb, hi, s);
        let want = St { f: if hf { s.f } else { a.f }, b: if hb { s.b } else { a.b }, i: if hi { s.i } else { a.i } };
        assert!(St::of(d.apply(a.style())) == want, "diff sets exactly the named components");
        assert!(St::of(a.style().with(&d)) == want, "borrowed diff sets exactly the named components");
    }
    [3] fn q_default_style() {
        assert!(St::of(Style::default()) == DEF, "default style");
        assert!(St::of(Style::default().with(StyleDiff::default())) == DEF, "default diff is empty");
        let a = St::any();
        assert!(St::of(a.style()) == a, "fields are stored");
        assert!(St::of(a.style().with(Style::default())) == DEF, "default style replaces everything");
    }
}
