//! C26: the frame of a widget, cell for cell.
use crate::c02::GRAPHEMES;
use crate::src::Src;
use tcss::types::border::{Border, BorderEdge, BorderKind};
use tcss::types::{AlignHorizontal, ComputedStyle, RgbaColor};
use textual::border_chars::{get_border_chars, get_border_locations};
use textual::render_cache::RenderCache;
use textual::segment::{Segment, Style};
use textual::strip::Strip;

const KINDS: &[(BorderKind, &str)] = &[
    (BorderKind::None, "none"), (BorderKind::Hidden, "hidden"), (BorderKind::Ascii, "ascii"), (BorderKind::Blank, "blank"), (BorderKind::Block, "block"),
    (BorderKind::Dashed, "dashed"), (BorderKind::Double, "double"), (BorderKind::Heavy, "heavy"), (BorderKind::Hkey, "hkey"), (BorderKind::Inner, "inner"),
    (BorderKind::Outer, "outer"), (BorderKind::Panel, "panel"), (BorderKind::Round, "round"), (BorderKind::Solid, "solid"), (BorderKind::Tall, "tall"),
    (BorderKind::Thick, "thick"), (BorderKind::Vkey, "vkey"), (BorderKind::Wide, "wide"),
];
fn name(k: BorderKind) -> &'static str {
    KINDS.iter().find(|p| p.0 == k).unwrap().1
}
/// (text, cell of it, cells of it, style)
type Cell = (String, usize, usize, Option<Style>);
fn blank(st: &Option<Style>) -> Cell {
    (" ".into(), 0, 1, st.clone())
}
fn blanks(n: usize, st: &Option<Style>) -> Vec<Cell> {
    vec![blank(st); n]
}
fn cut(c: &[Cell], a: usize, b: usize) -> Vec<Cell> {
    let mut v = c[a..b].to_vec();
    if let Some(f) = v.first_mut() {
        if f.1 == 1 { *f = blank(&f.3); }
    }
    if let Some(l) = v.last_mut() {
        if l.1 == 0 && l.2 == 2 { *l = blank(&l.3); }
    }
    v
}
fn fit(c: &[Cell], n: usize, st: &Option<Style>) -> Vec<Cell> {
    if c.len() >= n { cut(c, 0, n) } else { [c.to_vec(), blanks(n - c.len(), st)].concat() }
}
fn colour<S: Src>(s: &mut S) -> RgbaColor {
    RgbaColor::rgba(if s.bool() { 200 } else { 10 }, 20, 30, if s.bool() { 1.0 } else { 0.5 })
}
fn opt<S: Src>(s: &mut S) -> Option<RgbaColor> {
    s.bool().then(|| colour(s))
}
fn line<S: Src>(s: &mut S, max: usize) -> (Vec<Cell>, Strip) {
    let (mut cells, mut segs) = (vec![], vec![]);
    for _ in 0..s.below(3) {
        let st = s.bool().then(|| Style { fg: opt(s), bold: s.bool(), ..Default::default() });
        let mut text = String::new();
        for _ in 0..1 + s.below(max) {
            let (g, n) = GRAPHEMES[s.below(GRAPHEMES.len())];
            text.push_str(g);
            for i in 0..n { cells.push((g.to_string(), i, n, st.clone())); }
        }
        segs.push(match st { Some(st) => Segment::styled(text, st), None => Segment::new(text) });
    }
    (cells, Strip::from_segments(segs))
}
fn edges<S: Src>(s: &mut S) -> Border {
    let all = s.below(KINDS.len());
    let (same, odd) = (s.bool(), s.below(KINDS.len()));
    let tint = opt(s);
    let mut e = || {
        let k = if same { all } else { [0, all, odd, s.below(KINDS.len())][s.below(4)] };
        BorderEdge { kind: KINDS[k].0, color: if s.below(3) == 0 { opt(s) } else { tint.clone() } }
    };
    Border { top: e(), right: e(), bottom: e(), left: e() }
}
/// The edges that are there, and the glyph of row 0..3, place 0..3 of an edge.
struct Edges { top: bool, right: bool, bottom: bool, left: bool, glyph: Box<dyn Fn(&BorderEdge, Option<RgbaColor>, usize, usize) -> Cell> }
fn seen(b: &Border, style: &ComputedStyle) -> Edges {
    let v = |k: BorderKind, not: BorderKind| k != BorderKind::None && k != BorderKind::Hidden && k != not;
    let (bg, inherited) = (style.effective_background(), style.inherited_background.clone());
    Edges {
        top: v(b.top.kind, BorderKind::Vkey),
        bottom: v(b.bottom.kind, BorderKind::Vkey),
        left: v(b.left.kind, BorderKind::Hkey),
        right: v(b.right.kind, BorderKind::Hkey),
        glyph: Box::new(move |e, fg, row, place| {
            let zone = get_border_locations(name(e.kind))[row][place];
            let bg = if zone == 0 || zone == 3 { bg.clone() } else { inherited.clone() };
            (get_border_chars(name(e.kind))[row][place].to_string(), 0, 1, Some(Style { fg, bg, reverse: zone > 1, ..Default::default() }))
        }),
    }
}
/// A label in a line of fill.
fn label(l: &[Cell], fill: &Cell, n: usize, align: AlignHorizontal, spaced: bool) -> Vec<Cell> {
    let gap = if spaced { 1 } else { 0 };
    let lead = l.first().and_then(|c| c.3.clone());
    let body = |text: Vec<Cell>| if spaced { [blanks(1, &lead), text, blanks(1, &lead)].concat() } else { text };
    if l.len() + 2 * gap + 2 <= n {
        let rest = n - l.len() - 2 * gap;
        let left = match align { AlignHorizontal::Left => 1, AlignHorizontal::Center => rest / 2, AlignHorizontal::Right => rest - 1 };
        [vec![fill.clone(); left], body(l.to_vec()), vec![fill.clone(); rest - left]].concat()
    } else if n >= 3 + 2 * gap {
        let mut text = cut(l, 0, (n - 3 - 2 * gap).min(l.len()));
        let st = text.last().and_then(|c| c.3.clone());
        text.push(("…".into(), 0, 1, if spaced { st } else { Some(st.unwrap_or_default()) }));
        [vec![fill.clone()], body(text), vec![fill.clone()]].concat()
    } else {
        vec![fill.clone(); n]
    }
}
fn cells(strip: &Strip) -> Vec<Cell> {
    use unicode_segmentation::UnicodeSegmentation;
    let mut v = vec![];
    for seg in strip.segments() {
        for g in seg.text().graphemes(true) {
            let n = GRAPHEMES.iter().find(|p| p.0 == g).map_or(1, |p| p.1);
            for i in 0..n { v.push((g.to_string(), i, n, seg.style().cloned())); }
        }
    }
    v
}

/// Every line is exactly as wide as the widget and holds edges, padding, content and labels at their places.
pub fn c26_lines<S: Src>(s: &mut S) {
    let mut style = ComputedStyle::default();
    style.border = edges(s);
    if s.below(3) == 0 { style.outline = edges(s); }
    style.color = opt(s);
    style.background = opt(s);
    style.inherited_background = opt(s);
    let p = |s: &mut S| if s.bool() { 0.0 } else { s.below(4) as f64 };
    let (pt, pr, pb, pl) = (p(s), p(s), p(s), p(s));
    style.padding.top.value = pt;
    style.padding.right.value = pr;
    style.padding.bottom.value = pb;
    style.padding.left.value = pl;
    let aligns = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right];
    style.border_title_align = aligns[s.below(3)];
    style.border_subtitle_align = aligns[s.below(3)];
    let cache = RenderCache::new(&style);
    let (w, h) = (s.below(14), 1 + s.below(4));
    let title = s.bool().then(|| line(s, 5));
    let subtitle = s.bool().then(|| line(s, 5));
    let content = s.bool().then(|| line(s, 6));
    s.note(&|| format!("width {w} height {h} border {:?} outline {:?} padding {pt} {pr} {pb} {pl} title {title:?} subtitle {subtitle:?} content {content:?}", style.border, style.outline));

    let e = seen(&style.border, &style);
    let (l, r) = (e.left as usize, e.right as usize);
    let (pl, pr) = (pl as usize, pr as usize);
    assert_eq!((cache.border_left(), cache.border_right(), cache.border_top(), cache.border_bottom()), (l, r, e.top as usize, e.bottom as usize), "edges");
    assert_eq!(cache.inner_size(w, h), (w.saturating_sub(l + r + pl + pr), h.saturating_sub(e.top as usize + e.bottom as usize + (pt + pb) as usize)), "inner size");
    let paint = |e: &BorderEdge| {
        let c = e.color.clone().or(style.color.clone())?;
        Some(match &style.inherited_background { Some(bg) => c.blend_toward(bg, 1.0), None => c.with_opacity(1.0) })
    };
    let b = &style.border;
    let pad = style.effective_background().map(Style::with_bg);
    for y in 0..h {
        let got = cache.render_line(y, h, w, content.as_ref().map(|c| &c.1), title.as_ref().map(|c| &c.1), subtitle.as_ref().map(|c| &c.1));
        let (first, last) = (y == 0, y == h - 1);
        let whole = |edge: &BorderEdge, row: usize, text: &Option<(Vec<Cell>, Strip)>, align: AlignHorizontal| {
            let g = |place| (e.glyph)(edge, paint(edge), row, place);
            let both = e.left && e.right;
            let n = if both { w.saturating_sub(2) } else { w };
            let mid = match text { Some(t) => label(&t.0, &g(1), n, align, both), None => vec![g(1); n] };
            if both { [vec![g(0)], mid, vec![g(2)]].concat() } else { mid }
        };
        let mut want = if first && e.top {
            whole(&b.top, 0, &title, style.border_title_align)
        } else if last && e.bottom {
            whole(&b.bottom, 2, &subtitle, style.border_subtitle_align)
        } else {
            let text = if l + r == 0 { None } else if first && title.is_some() { Some((&title, style.border_title_align)) } else if last && subtitle.is_some() { Some((&subtitle, style.border_subtitle_align)) } else { None };
            let room = w.saturating_sub(l + r);
            let mid = match text {
                Some((t, align)) => label(&t.as_ref().unwrap().0, &(e.glyph)(&b.top, paint(&b.top), 1, 1), room, align, true),
                None => {
                    let inner = room.saturating_sub(pl + pr);
                    let c = match &content { Some(c) => fit(&c.0, inner, &pad), None => blanks(inner, &pad) };
                    [blanks(pl, &pad), c, blanks(pr, &pad)].concat()
                }
            };
            let mut v = vec![];
            if e.left { v.push((e.glyph)(&b.left, paint(&b.left), 1, 0)); }
            v.extend(mid);
            if e.right { v.push((e.glyph)(&b.right, paint(&b.right), 1, 2)); }
            v
        };
        if w == 0 { want.clear(); }
        if want.len() > w { want = cut(&want, 0, w); }
        let o = seen(&style.outline, &style);
        if w > 0 && (o.top || o.right || o.bottom || o.left) {
            let b = &style.outline;
            let g = |edge: &BorderEdge, row, place| (o.glyph)(edge, edge.color.clone().or(style.color.clone()), row, place);
            let (l, r) = (o.left as usize, o.right as usize);
            let ends = |edge: &BorderEdge, row| [vec![g(edge, row, 0); l], vec![g(edge, row, 1); w.saturating_sub(l + r)], vec![g(edge, row, 2); r]].concat();
            want = if first && o.top {
                ends(&b.top, 0)
            } else if last && o.bottom {
                ends(&b.bottom, 2)
            } else if l + r > 0 {
                let mid = if w > l + r { cut(&want, l, w - r) } else { vec![] };
                [vec![g(&b.left, 1, 0); l], mid, vec![g(&b.right, 1, 2); r]].concat()
            } else {
                want
            };
            if want.len() > w { want = cut(&want, 0, w); }
        }
        let is = cells(&got);
        assert_eq!(is.len(), w, "line {y} is {} cells wide", is.len());
        assert_eq!(got.cell_length(), w, "reported width of line {y}");
        assert_eq!(is, want, "line {y}");
    }
}

/// The region left for the children of a container.
pub fn c26_region<S: Src>(s: &mut S) {
    let mut style = ComputedStyle::default();
    style.border = edges(s);
    let p: Vec<f64> = (0..4).map(|_| if s.bool() { 0.0 } else { s.below(5) as f64 }).collect();
    style.padding.top.value = p[0];
    style.padding.right.value = p[1];
    style.padding.bottom.value = p[2];
    style.padding.left.value = p[3];
    let r = textual::Region { x: s.range(-5, 9) as i32, y: s.range(-5, 9) as i32, width: s.range(-1, 14) as i32, height: s.range(-1, 9) as i32 };
    s.note(&|| format!("region {r:?} border {:?} padding {p:?}", style.border));
    let e = seen(&style.border, &style);
    let got = textual::containers::inner_region_for_container(r, &style);
    let mut c = textual::Canvas::new(10, 6);
    let drawn = textual::containers::render_container_chrome(&mut c, r, &style);
    assert!(got == drawn, "{got:?} before and {drawn:?} after drawing");
    let want = if r.width <= 0 || r.height <= 0 {
        r
    } else {
        let (l, t) = (e.left as i32 + p[3] as i32, e.top as i32 + p[0] as i32);
        textual::Region { x: r.x + l, y: r.y + t, width: (r.width - l - e.right as i32 - p[1] as i32).max(0), height: (r.height - t - e.bottom as i32 - p[2] as i32).max(0) }
    };
    assert!(got == want, "inner region {got:?}, not {want:?}");
    for y in 0..6 {
        for x in 0..10 {
            let inside = r.width > 0 && r.height > 0 && (r.x..r.x + r.width).contains(&x) && (r.y..r.y + r.height).contains(&y);
            let glyph = c.get_char(x, y);
            assert!(inside || glyph == ' ', "{glyph:?} at {x},{y} outside {r:?}");
        }
    }
}

/// The lines of a text stand inside the frame of their widget, aligned as asked.
pub fn c26_text<S: Src>(s: &mut S) {
    use tcss::types::AlignVertical;
    use tcss::types::text::TextAlign;
    use textual::{Static, Widget};
    let mut style = ComputedStyle::default();
    style.border = edges(s);
    let p: Vec<usize> = (0..4).map(|_| if s.bool() { 0 } else { s.below(3) }).collect();
    style.padding.top.value = p[0] as f64;
    style.padding.right.value = p[1] as f64;
    style.padding.bottom.value = p[2] as f64;
    style.padding.left.value = p[3] as f64;
    let h_align = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right][s.below(3)];
    let v_align = [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom][s.below(3)];
    let (text_align, line_align) = [(TextAlign::Left, AlignHorizontal::Left), (TextAlign::Start, AlignHorizontal::Left), (TextAlign::Center, AlignHorizontal::Center), (TextAlign::Right, AlignHorizontal::Right), (TextAlign::End, AlignHorizontal::Right)][s.below(5)].clone();
    style.content_align_horizontal = h_align;
    style.content_align_vertical = v_align;
    style.text_align = text_align;
    let e = seen(&style.border, &style);
    let (w, h) = (1 + s.below(16), 1 + s.below(9));
    let sides = e.left || e.right;
    let title = (sides || e.top) && s.bool();
    let subtitle = (sides || e.bottom) && s.bool();
    let room = w.saturating_sub(e.left as usize + e.right as usize + p[1] + p[3]);
    let lines: Vec<String> = (0..1 + s.below(4)).map(|i| ["a", "b", "c", "d"][i].repeat(1 + s.below(room.max(1)))).collect();
    let mut b: Static<()> = Static::new(lines.join("\n"));
    if title { b = b.with_border_title("T"); }
    if subtitle { b.set_border_subtitle("S"); }
    s.note(&|| format!("{w}x{h} lines {lines:?} border {:?} padding {p:?} align {h_align:?} {v_align:?} {line_align:?} title {title} subtitle {subtitle}", style.border));
    b.set_style(style.clone());
    let (x0, y0) = (s.below(3) as i32, s.below(3) as i32);
    let mut c = textual::Canvas::new(w as u16 + 5, h as u16 + 5);
    b.render(&mut c, textual::Region { x: x0, y: y0, width: w as i32, height: h as i32 });
    let at = |off: usize, len: usize, n: usize, a: AlignHorizontal| off + match a { AlignHorizontal::Left => 0, AlignHorizontal::Center => n.saturating_sub(len) / 2, AlignHorizontal::Right => n.saturating_sub(len) };
    let (over, under) = ((title && !e.top) as usize, (subtitle && !e.bottom) as usize);
    let top = e.top as usize + over + p[0];
    let end = h.saturating_sub(e.bottom as usize + under + p[2]);
    let n = end.saturating_sub(top);
    let block = lines.iter().map(|l| l.len()).max().unwrap().min(room);
    let first = match v_align { AlignVertical::Top => 0, AlignVertical::Middle => n.saturating_sub(lines.len()) / 2, AlignVertical::Bottom => n.saturating_sub(lines.len()) };
    let whole = h_align == AlignHorizontal::Left && v_align == AlignVertical::Top;
    let (from, span) = if whole { (0, room) } else { (at(0, block, room, h_align), block) };
    let left = e.left as usize + p[3];
    for y in e.top as usize + over..h.saturating_sub(e.bottom as usize + under) {
        for x in e.left as usize..w.saturating_sub(e.right as usize) {
            let line = if (top..end).contains(&y) && (y - top) >= first { lines.get(y - top - first) } else { None };
            let want = match line {
                Some(l) if room > 0 => {
                    let a = left + at(from, l.len(), span, line_align);
                    if (a..a + l.len()).contains(&x) { l.as_bytes()[0] as char } else { ' ' }
                }
                _ => ' ',
            };
            let got = c.get_char(x0 + x as i32, y0 + y as i32);
            assert!(got == want, "{got:?} at {x},{y} of the widget, not {want:?}");
        }
    }
}
