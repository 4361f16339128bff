//! C22: style layering.
use crate::src::Src;
use tcss::types::RgbaColor;
use textual::segment::Style;

fn opt_color<S: Src>(s: &mut S) -> Option<RgbaColor> {
    if s.bool() {
        let mut c = RgbaColor::rgb(s.u8(), s.u8(), s.u8());
        c.a = if s.bool() { 1.0 } else { 0.5 };
        Some(c)
    } else {
        None
    }
}
fn style<S: Src>(s: &mut S) -> Style {
    let x = Style {
        fg: opt_color(s),
        bg: opt_color(s),
        bold: s.bool(),
        dim: s.bool(),
        italic: s.bool(),
        underline: s.bool(),
        strike: s.bool(),
        reverse: s.bool(),
    };
    s.note(&|| format!("{x:?}"));
    x
}
/// Equality field by field (no string comparison: colours under test are literal ones).
fn ceq(a: &Option<RgbaColor>, b: &Option<RgbaColor>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a && a.auto == b.auto && a.ansi == b.ansi && a.theme_var.is_none() && b.theme_var.is_none(),
        _ => false,
    }
}
fn seq(a: &Style, b: &Style) -> bool {
    ceq(&a.fg, &b.fg)
        && ceq(&a.bg, &b.bg)
        && a.bold == b.bold
        && a.dim == b.dim
        && a.italic == b.italic
        && a.underline == b.underline
        && a.strike == b.strike
        && a.reverse == b.reverse
}
pub fn c22_segment_style<S: Src>(s: &mut S) {
    let (a, b) = (style(s), style(s));
    let r = a.apply(&b);
    assert!(ceq(&r.fg, if b.fg.is_some() { &b.fg } else { &a.fg }), "foreground: {r:?}");
    assert!(ceq(&r.bg, if b.bg.is_some() { &b.bg } else { &a.bg }), "background: {r:?}");
    assert!(r.bold == (a.bold | b.bold) && r.dim == (a.dim | b.dim) && r.italic == (a.italic | b.italic), "attributes: {r:?}");
    assert!(r.underline == (a.underline | b.underline) && r.strike == (a.strike | b.strike) && r.reverse == (a.reverse | b.reverse), "attributes: {r:?}");
    std::mem::forget((a, b, r));
}
pub fn c22_segment_empty<S: Src>(s: &mut S) {
    let a = style(s);
    let e = Style::default();
    assert!(e.is_empty(), "the default style is empty");
    let (l, r) = (a.apply(&e), e.apply(&a));
    assert!(seq(&l, &a) && seq(&r, &a), "an empty style changes nothing");
    assert!(a.is_empty() == seq(&a, &e), "emptiness: {a:?}");
    std::mem::forget((a, e, l, r));
}
pub fn c22_segment_assoc<S: Src>(s: &mut S) {
    let (a, b, c) = (style(s), style(s), style(s));
    let (l, r) = (a.apply(&b).apply(&c), a.apply(&b.apply(&c)));
    assert!(seq(&l, &r), "associative");
    std::mem::forget((a, b, c, l, r));
}

fn ropt<S: Src>(s: &mut S) -> Option<rich::Color> {
    if s.bool() { Some(rich::Color::Rgb(s.u8(), s.u8(), s.u8())) } else { None }
}
fn rstyle<S: Src>(s: &mut S) -> rich::Style {
    let mut x = rich::Style::new();
    x.fg = ropt(s);
    x.bg = ropt(s);
    x.text.bold = s.bool();
    x.text.dim = s.bool();
    x.text.italic = s.bool();
    x.text.underline = s.bool();
    x.text.strike = s.bool();
    x.text.reverse = s.bool();
    x.text.blink = s.bool();
    s.note(&|| format!("{x:?}"));
    x
}
fn rceq(a: &Option<rich::Color>, b: &Option<rich::Color>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(rich::Color::Rgb(a, b, c)), Some(rich::Color::Rgb(d, e, f))) => a == d && b == e && c == f,
        _ => false,
    }
}
fn rseq(a: &rich::Style, b: &rich::Style) -> bool {
    rceq(&a.fg, &b.fg) && rceq(&a.bg, &b.bg) && a.text == b.text
}
pub fn c22_rich_style<S: Src>(s: &mut S) {
    let (a, b) = (rstyle(s), rstyle(s));
    let r = a.apply(&b);
    assert!(rceq(&r.fg, if b.fg.is_some() { &b.fg } else { &a.fg }), "foreground: {r:?}");
    assert!(rceq(&r.bg, if b.bg.is_some() { &b.bg } else { &a.bg }), "background: {r:?}");
    let (p, q, t) = (&a.text, &b.text, &r.text);
    assert!(t.bold == (p.bold | q.bold) && t.dim == (p.dim | q.dim) && t.italic == (p.italic | q.italic) && t.underline == (p.underline | q.underline), "attributes: {r:?}");
    assert!(t.strike == (p.strike | q.strike) && t.reverse == (p.reverse | q.reverse) && t.blink == (p.blink | q.blink), "attributes: {r:?}");
    std::mem::forget((a, b, r));
}
pub fn c22_rich_empty<S: Src>(s: &mut S) {
    let a = rstyle(s);
    let e = rich::Style::new();
    assert!(e.is_empty() && a.is_empty() == rseq(&a, &e), "emptiness: {a:?}");
    let (l, r) = (a.apply(&e), e.apply(&a));
    assert!(rseq(&l, &a) && rseq(&r, &a), "an empty style changes nothing");
    std::mem::forget((a, e, l, r));
}
pub fn c22_rich_assoc<S: Src>(s: &mut S) {
    let (a, b, c) = (rstyle(s), rstyle(s), rstyle(s));
    let (l, r) = (a.apply(&b).apply(&c), a.apply(&b.apply(&c)));
    assert!(rseq(&l, &r), "associative");
    std::mem::forget((a, b, c, l, r));
}

/// Every kind of colour (theme variables, automatic, terminal and transparent ones; names), put on text.
fn any_color<S: Src>(s: &mut S) -> Option<RgbaColor> {
    if s.below(3) == 0 {
        return None;
    }
    let mut c = match s.below(4) {
        0 => RgbaColor::theme_variable(["primary", "surface", "x"][s.below(3)]),
        1 => RgbaColor::default(),
        _ => RgbaColor::rgb(s.u8(), s.u8(), s.u8()),
    };
    c.auto = s.below(4) == 0;
    c.ansi = if s.below(4) == 0 { Some(s.u8()) } else { None };
    c.a = [0.0, 0.25, 0.5, 1.0][s.below(4)];
    Some(c)
}
fn any_style<S: Src>(s: &mut S) -> Style {
    let x = Style { fg: any_color(s), bg: any_color(s), ..style(s) };
    s.note(&|| format!("{x:?}"));
    x
}
fn on(a: &Style, b: &Style) -> Style {
    Style {
        fg: b.fg.clone().or(a.fg.clone()),
        bg: b.bg.clone().or(a.bg.clone()),
        bold: a.bold || b.bold,
        dim: a.dim || b.dim,
        italic: a.italic || b.italic,
        underline: a.underline || b.underline,
        strike: a.strike || b.strike,
        reverse: a.reverse || b.reverse,
    }
}
fn any_rich<S: Src>(s: &mut S) -> rich::Style {
    let mut x = rstyle(s);
    for c in [&mut x.fg, &mut x.bg] {
        if s.below(3) == 0 {
            *c = Some(rich::Color::Named(["red", "$primary", ""][s.below(3)].to_string()));
        }
    }
    s.note(&|| format!("{x:?}"));
    x
}
pub fn c22_wild<S: Src>(s: &mut S) {
    use textual::{segment::Segment, strip::Strip};
    let (a, b, c) = (any_style(s), any_style(s), any_style(s));
    assert_eq!(a.apply(&b), on(&a, &b), "layering");
    assert_eq!(a.apply(&b).apply(&c), a.apply(&b.apply(&c)), "associative");
    assert_eq!(a.is_empty(), a == Style::default(), "emptiness");
    let e = Style::default();
    assert!(a.apply(&e) == a && e.apply(&a) == a, "an empty style changes nothing");
    let n = s.below(4);
    let mut parts = Vec::new();
    for i in 0..n {
        let t = ["", "x", "日本", "a b"][(i + s.below(4)) % 4];
        let g = if s.bool() { Segment::styled(t, any_style(s)) } else { Segment::new(t) };
        parts.push(if s.bool() { g.with_meta([("@click".to_string(), "go".to_string())].into_iter().collect()) } else { g });
    }
    let line = Strip::from_segments(parts.clone());
    let got = line.apply_style(&b);
    assert_eq!(got.segments().len(), n, "pieces");
    for (p, g) in parts.iter().zip(got.segments()) {
        assert!(p.text() == g.text() && p.meta() == g.meta() && p.cell_length() == g.cell_length(), "the text itself: {g:?}");
        let low = p.style().cloned().unwrap_or_default();
        assert_eq!(g.style().cloned().unwrap_or_default(), on(&low, &b), "the style of {:?}", p.text());
    }
    assert_eq!(line.apply_style(&b).apply_style(&c).segments(), line.apply_style(&b.apply(&c)).segments(), "any grouping");
    let (p, q, r) = (any_rich(s), any_rich(s), any_rich(s));
    let l = p.apply(&q);
    assert!(l.fg == q.fg.clone().or(p.fg.clone()) && l.bg == q.bg.clone().or(p.bg.clone()), "markup colours: {l:?}");
    assert_eq!(p.apply(&q).apply(&r), p.apply(&q.apply(&r)), "markup styles associative");
    assert!(p.apply(&rich::Style::new()) == p && rich::Style::new().apply(&p) == p, "an empty markup style changes nothing");
    assert_eq!(p.is_empty(), p == rich::Style::new(), "emptiness of a markup style");
}
