//! C09: box sizes. The oracle is the meaning of each unit; percentages round to the nearest cell.
use crate::src::Src;
use tcss::types::border::BorderKind;
use tcss::types::{BoxSizing, ComputedStyle, Scalar, Unit};
use textual::layouts::size_resolver as sr;

fn unit<S: Src>(s: &mut S) -> Unit {
    match s.below(8) {
        0 => Unit::Cells,
        1 => Unit::Percent,
        2 => Unit::Width,
        3 => Unit::Height,
        4 => Unit::ViewWidth,
        5 => Unit::ViewHeight,
        6 => Unit::Fraction,
        _ => Unit::Auto,
    }
}
/// `got` is `value`% of `whole`, to the nearest cell.
fn is_percent(got: i32, value: f64, whole: i32) -> bool {
    let exact = value * whole as f64;
    let d = exact - 100.0 * got as f64;
    d >= -50.000001 && d <= 50.000001
}
/// Sizes a stylesheet can plausibly ask for: a thousandth of a cell to ten thousand cells or percent.
fn scalar<S: Src>(s: &mut S) -> (Scalar, Unit) {
    let u = unit(s);
    let v = s.range(0, 1000) as f64;
    let f = [0.0, 0.5, 0.25, 0.125][s.below(4)];
    (Scalar { value: v + f, unit: u }, u)
}
fn avail<S: Src>(s: &mut S) -> i32 {
    s.range(0, 1000) as i32
}

/// Cells, automatic, fractional and absent sizes: every input.
pub fn c09_fixed_units<S: Src>(s: &mut S) {
    let mut st = ComputedStyle::default();
    let u = match s.below(4) {
        0 => None,
        1 => Some(Unit::Cells),
        2 => Some(Unit::Auto),
        _ => Some(Unit::Fraction),
    };
    let v = s.i32();
    if let Some(u) = u {
        st.width = Some(Scalar { value: v as f64, unit: u });
        st.height = Some(Scalar { value: v as f64, unit: u });
    }
    let (intr, aw, ah, vw, vh) = (s.u16(), s.i32(), s.i32(), s.i32(), s.i32());
    s.note(&|| format!("unit {u:?} value {v} intrinsic {intr} available {aw}x{ah} viewport {vw}x{vh}"));
    let w = sr::resolve_width_with_intrinsic(&st, intr, aw);
    let h = sr::resolve_height_with_intrinsic(&st, intr, ah);
    let hf = sr::resolve_height_full(&st, intr, ah, aw, vw, vh);
    let want = |a: i32| match u {
        Some(Unit::Cells) => v,
        Some(Unit::Auto) => intr as i32,
        _ => a,
    };
    assert!(w == want(aw), "width {w}");
    assert!(h == want(ah) && hf == want(ah), "height {h} {hf}");
    let (fw, fh) = (sr::resolve_width_fill(&st, aw), sr::resolve_height_fill(&st, ah));
    let (xw, xh) = (sr::resolve_width_fixed(&st, aw), sr::resolve_height_fixed(&st, ah));
    match u {
        Some(Unit::Cells) => assert!(fw == v && fh == v && xw == v && xh == v, "cells as given: {fw} {fh} {xw} {xh}"),
        Some(Unit::Auto) => assert!(fw == aw && fh == ah && xw == aw && xh == sr::DEFAULT_FIXED_HEIGHT, "auto: {fw} {fh} {xw} {xh}"),
        None => assert!(fw == aw && fh == ah && xw == sr::DEFAULT_FIXED_WIDTH && xh == sr::DEFAULT_FIXED_HEIGHT, "default: {fw} {fh} {xw} {xh}"),
        _ => {}
    }
}

/// Percentages of the right dimension.
pub fn c09_percent<S: Src>(s: &mut S) {
    let mut st = ComputedStyle::default();
    let (sc, u) = scalar(s);
    s.assume(!matches!(u, Unit::Cells | Unit::Auto | Unit::Fraction));
    st.width = Some(sc);
    st.height = Some(sc);
    let (aw, ah, vw, vh) = (avail(s), avail(s), avail(s), avail(s));
    s.note(&|| format!("{sc:?} available {aw}x{ah} viewport {vw}x{vh}"));
    let h = sr::resolve_height_full(&st, 7, ah, aw, vw, vh);
    let whole = match u {
        Unit::Percent | Unit::Height => ah,
        Unit::Width => aw,
        Unit::ViewWidth => vw,
        _ => vh,
    };
    assert!(is_percent(h, sc.value, whole), "height {h}");
    if u == Unit::Percent {
        for w in [sr::resolve_width_with_intrinsic(&st, 7, aw), sr::resolve_width_fill(&st, aw), sr::resolve_width_fixed(&st, aw)] {
            assert!(is_percent(w, sc.value, aw), "width {w}");
        }
        for h in [sr::resolve_height_with_intrinsic(&st, 7, ah), sr::resolve_height_fill(&st, ah), sr::resolve_height_fixed(&st, ah)] {
            assert!(is_percent(h, sc.value, ah), "height {h}");
        }
    }
}

fn kind<S: Src>(s: &mut S) -> BorderKind {
    use BorderKind::*;
    [None, Hidden, Blank, Ascii, Double, Heavy, Outer, Inner, Block, Dashed, Hkey, Panel, Solid, Round, Tall, Thick, Vkey, Wide][s.below(18)]
}
fn edge(k: BorderKind) -> i32 {
    if k == BorderKind::None || k == BorderKind::Hidden { 0 } else { 1 }
}
/// Border and padding are added only under content-box sizing, each side once.
pub fn c09_chrome<S: Src>(s: &mut S) {
    let mut st = ComputedStyle::default();
    let k = [kind(s), kind(s), kind(s), kind(s)];
    let p = [s.range(0, 70000), s.range(0, 70000), s.range(0, 70000), s.range(0, 70000)];
    st.border.top.kind = k[0];
    st.border.right.kind = k[1];
    st.border.bottom.kind = k[2];
    st.border.left.kind = k[3];
    st.padding.top = Scalar::cells(p[0] as f64);
    st.padding.right = Scalar::cells(p[1] as f64);
    st.padding.bottom = Scalar::cells(p[2] as f64);
    st.padding.left = Scalar::cells(p[3] as f64);
    let content = s.bool();
    st.box_sizing = if content { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
    let size = s.i32();
    s.assume(size <= i32::MAX - 200_000);
    s.note(&|| format!("borders {k:?} padding {p:?} content-box {content} size {size}"));
    let v = edge(k[0]) + edge(k[2]) + p[0] as i32 + p[2] as i32;
    let h = edge(k[1]) + edge(k[3]) + p[1] as i32 + p[3] as i32;
    assert!(sr::vertical_chrome(&st) == v, "vertical border and padding");
    assert!(sr::horizontal_chrome(&st) == h, "horizontal border and padding");
    let (bh, bw) = (sr::apply_box_sizing_height(size, &st), sr::apply_box_sizing_width(size, &st));
    assert!(bh == if content { size + v } else { size }, "box height {bh}");
    assert!(bw == if content { size + h } else { size }, "box width {bw}");
}

/// Percentages whose hundredth is exact in binary: the result is exact for every 32-bit size, so each unit must take
/// its percentage of the right dimension.
pub fn c09_percent_exact<S: Src>(s: &mut S) {
    let mut st = ComputedStyle::default();
    let (v, q) = match s.below(4) {
        0 => (0.0, 0),
        1 => (25.0, 1),
        2 => (50.0, 2),
        _ => (100.0, 4),
    };
    let u = match s.below(5) {
        0 => Unit::Percent,
        1 => Unit::Width,
        2 => Unit::Height,
        3 => Unit::ViewWidth,
        _ => Unit::ViewHeight,
    };
    st.height = Some(Scalar { value: v, unit: u });
    st.width = Some(Scalar { value: v, unit: Unit::Percent });
    let (aw, ah, vw, vh) = (s.i32(), s.i32(), s.i32(), s.i32());
    s.assume(aw >= 0 && ah >= 0 && vw >= 0 && vh >= 0);
    s.note(&|| format!("{v} {u:?} available {aw}x{ah} viewport {vw}x{vh}"));
    let whole = match u {
        Unit::Percent | Unit::Height => ah,
        Unit::Width => aw,
        Unit::ViewWidth => vw,
        _ => vh,
    };
    let want = |whole: i32| ((whole as i64 * q + 2) / 4) as i32;
    let h = sr::resolve_height_full(&st, 7, ah, aw, vw, vh);
    assert!(h == want(whole), "height {h}");
    let w = sr::resolve_width_with_intrinsic(&st, 7, aw);
    assert!(w == want(aw), "width {w}");
}
