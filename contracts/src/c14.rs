//! C14: colour mixing.
use crate::src::Src;
use tcss::types::RgbaColor;

fn unit<S: Src>(s: &mut S) -> f32 {
    let a = s.f32();
    s.assume(a >= 0.0 && a <= 1.0);
    a
}
fn color<S: Src>(s: &mut S) -> RgbaColor {
    let c = RgbaColor::rgba(s.u8(), s.u8(), s.u8(), unit(s));
    s.note(&|| format!("{c:?}"));
    c
}
fn btw(v: u8, a: u8, b: u8) -> bool {
    v >= a.min(b) && v <= a.max(b)
}
fn between(v: &RgbaColor, a: &RgbaColor, b: &RgbaColor) -> bool {
    btw(v.r, a.r, b.r) && btw(v.g, a.g, b.g) && btw(v.b, a.b, b.b)
}
fn rgb_eq(a: &RgbaColor, b: &RgbaColor) -> bool {
    a.r == b.r && a.g == b.g && a.b == b.b
}
fn plain(a: &RgbaColor) -> bool {
    a.ansi.is_none() && !a.auto && a.theme_var.is_none()
}

pub fn c14_blend<S: Src>(s: &mut S) {
    let (a, b) = (color(s), color(s));
    let f = s.f32();
    s.assume(!f.is_nan());
    let alpha = if s.bool() { Some(unit(s)) } else { None };
    s.note(&|| format!("factor {f} alpha {alpha:?}"));
    let r = a.blend(&b, f, alpha);
    assert!(plain(&r) && between(&r, &a, &b), "mixed colour outside its inputs: {r:?}");
    if f <= 0.0 {
        assert!(r == a, "factor zero keeps the first colour: {r:?}");
    } else if f >= 1.0 {
        assert!(r == b, "factor one gives the second colour: {r:?}");
    } else if let Some(x) = alpha {
        assert!(r.a == x, "requested opacity: {r:?}");
    }
    let q = a.blend(&a, f, None);
    assert!(q == a, "mixing a colour with itself: {q:?}");
}

/// The mix moves at least as far towards the second colour when the factor grows, and by about the right amount.
pub fn c14_blend_amount<S: Src>(s: &mut S) {
    let (a, b) = (RgbaColor::rgb(s.u8(), 0, 0), RgbaColor::rgb(s.u8(), 0, 0));
    let f = unit(s);
    s.note(&|| format!("{} {} {f}", a.r, b.r));
    let exact = a.r as f64 + (b.r as f64 - a.r as f64) * f as f64;
    for v in [a.blend(&b, f, None).r, a.tint(&RgbaColor::rgba(b.r, 0, 0, f)).r, RgbaColor::rgba(b.r, 0, 0, f).blend_over(&a).r, b.blend_toward(&a, f as f64).r] {
        let d = exact - v as f64;
        assert!(d > -1.0 && d < 1.0, "mix {v} is a whole step away from {exact}");
    }
}

pub fn c14_tint<S: Src>(s: &mut S) {
    let (a, o) = (color(s), color(s));
    let r = a.tint(&o);
    assert!(plain(&r) && between(&r, &a, &o), "tinted colour outside its inputs: {r:?}");
    assert!(r.a == a.a, "tint changes opacity: {r:?}");
    if o.a == 0.0 {
        assert!(rgb_eq(&r, &a), "transparent tint: {r:?}");
    }
    if o.a == 1.0 {
        assert!(rgb_eq(&r, &o), "opaque tint: {r:?}");
    }
    let q = a.tint(&RgbaColor::rgba(a.r, a.g, a.b, o.a));
    assert!(q == a, "tinting with the same colour: {q:?}");
    // compositing
    let r = o.blend_over(&a);
    assert!(plain(&r) && between(&r, &a, &o), "composited colour outside its inputs: {r:?}");
    if o.a == 0.0 {
        assert!(r == a, "transparent overlay: {r:?}");
    } else if o.a == 1.0 {
        assert!(r == o, "opaque overlay: {r:?}");
    } else {
        assert!(r.a == a.a, "compositing keeps the background's opacity: {r:?}");
    }
}

pub fn c14_toward<S: Src>(s: &mut S) {
    let (a, d) = (color(s), color(s));
    let f = s.f64();
    s.assume(!f.is_nan());
    s.note(&|| format!("factor {f}"));
    let r = a.blend_toward(&d, f);
    assert!(plain(&r) && between(&r, &a, &d), "faded colour outside its inputs: {r:?}");
    if f >= 1.0 {
        assert!(r == a, "factor one keeps the colour: {r:?}");
    } else if f <= 0.0 {
        assert!(r == d, "factor zero gives the destination: {r:?}");
    } else {
        assert!(r.a == a.a, "fading changes opacity: {r:?}");
    }
}

pub fn c14_opacity<S: Src>(s: &mut S) {
    let a = color(s);
    let i = a.inverse();
    assert!(i.r == 255 - a.r && i.g == 255 - a.g && i.b == 255 - a.b && i.a == a.a, "inverse: {i:?}");
    assert!(i.inverse() == a, "inverse twice");
    let x = unit(s);
    let w = a.with_alpha(x);
    assert!(rgb_eq(&w, &a) && w.a == x && plain(&w), "with_alpha: {w:?}");
    let o = s.f64();
    s.assume(o >= 0.0);
    s.note(&|| format!("alpha {x} opacity {o}"));
    let w = a.with_opacity(o);
    assert!(rgb_eq(&w, &a) && plain(&w), "opacity changes a channel: {w:?}");
    assert!(w.a >= 0.0 && w.a <= a.a, "opacity makes the colour more opaque: {w:?}");
    if o >= 1.0 {
        assert!(w.a == a.a, "full opacity: {w:?}");
    }
    if o == 0.0 {
        assert!(w.a == 0.0 && w.is_transparent(), "zero opacity: {w:?}");
    }
}

pub fn c14_contrast<S: Src>(s: &mut S) {
    let a = color(s);
    let ratio = unit(s);
    s.note(&|| format!("ratio {ratio}"));
    let k = a.get_contrasting_color(1.0);
    assert!(rgb_eq(&k, &RgbaColor::white()) || rgb_eq(&k, &RgbaColor::black()), "contrast is black or white: {k:?}");
    let r = a.get_contrasting_color(ratio);
    assert!(between(&r, &a, &k), "contrast colour outside its inputs: {r:?}");
    if ratio == 1.0 {
        assert!(rgb_eq(&r, &k), "full contrast: {r:?}");
    }
    if ratio == 0.0 {
        assert!(rgb_eq(&r, &a), "no contrast: {r:?}");
    }
    let t = a.contrast_text(ratio);
    assert!(rgb_eq(&t, &k) && t.a == ratio, "contrast text: {t:?}");
}
