//! C04: cell conservation of styled lines.
use crate::c02::{GRAPHEMES, color};
use crate::src::Src;
use std::collections::HashMap;
use tcss::types::text::AlignHorizontal;
use textual::segment::{Segment, Style};
use textual::strip::Strip;

/// One cell: the grapheme in it (None: right half of the one to its left), style, metadata.
#[derive(Clone, PartialEq, Debug)]
pub struct C {
    g: Option<String>,
    wide: bool,
    style: Option<Style>,
    meta: Option<String>,
}
fn style<S: Src>(s: &mut S) -> Option<Style> {
    match s.below(4) {
        0 => None,
        1 => Some(Style::default()),
        _ => Some(Style { fg: color(s), bg: color(s), bold: s.bool(), dim: s.bool(), italic: s.bool(), underline: s.bool(), strike: s.bool(), reverse: s.bool() }),
    }
}
fn blank(style: &Option<Style>, meta: &Option<String>) -> C {
    C { g: Some(" ".into()), wide: false, style: style.clone(), meta: meta.clone() }
}
/// A segment with the cells it must have.
fn segment<S: Src>(s: &mut S, cells: &mut Vec<C>) -> Segment {
    let st = style(s);
    let meta = s.bool().then(|| format!("m{}", s.below(3)));
    let mut text = String::new();
    let ascii = s.bool();
    for _ in 0..s.below(6) {
        let (g, n) = GRAPHEMES[s.below(if ascii { 4 } else { GRAPHEMES.len() })];
        text.push_str(g);
        cells.push(C { g: Some(g.into()), wide: n == 2, style: st.clone(), meta: meta.clone() });
        if n == 2 {
            cells.push(C { g: None, wide: false, style: st.clone(), meta: meta.clone() });
        }
    }
    let seg = match (&st, s.bool()) {
        (Some(st), true) => Segment::styled(text, st.clone()),
        (Some(st), false) => Segment::new(text).with_style(st.clone()),
        (None, _) => Segment::new(text),
    };
    match meta {
        Some(m) => seg.with_meta(HashMap::from([("k".to_string(), m)])),
        None => seg,
    }
}
fn strip<S: Src>(s: &mut S, cells: &mut Vec<C>) -> Strip {
    let segs: Vec<Segment> = (0..s.below(5)).map(|_| segment(s, cells)).collect();
    match s.below(3) {
        0 => Strip::from_segments(segs),
        1 => Strip::from_iter(segs),
        _ if segs.len() == 1 => Strip::from_segment(segs.into_iter().next().unwrap()),
        _ => Strip::join(segs.into_iter().map(Strip::from_segment)),
    }
}
fn cells(segs: &[Segment]) -> Vec<C> {
    let mut v = vec![];
    for seg in segs {
        let (st, meta) = (seg.style().cloned(), seg.get_meta("k").map(String::from));
        let from = v.len();
        let mut rest = seg.text();
        while !rest.is_empty() {
            let (g, n) = GRAPHEMES.iter().filter(|g| rest.starts_with(g.0)).max_by_key(|g| g.0.len()).unwrap_or_else(|| panic!("foreign text {rest:?}"));
            v.push(C { g: Some(g.to_string()), wide: *n == 2, style: st.clone(), meta: meta.clone() });
            if *n == 2 {
                v.push(C { g: None, wide: false, style: st.clone(), meta: meta.clone() });
            }
            rest = &rest[g.len()..];
        }
        assert!(seg.cell_length() == v.len() - from, "segment {:?} reports width {}", seg.text(), seg.cell_length());
    }
    v
}
/// The cells of an interval; a half grapheme at either end is a blank.
fn cut(c: &[C], a: usize, b: usize) -> Vec<C> {
    let b = b.min(c.len());
    if a >= b {
        return vec![];
    }
    let mut v = c[a..b].to_vec();
    let n = v.len();
    if v[0].g.is_none() {
        v[0] = blank(&v[0].style, &v[0].meta);
    }
    if v[n - 1].wide {
        v[n - 1] = blank(&v[n - 1].style, &v[n - 1].meta);
    }
    v
}
fn check(what: &str, r: &Strip, want: &[C]) {
    let got = cells(r.segments());
    assert!(r.cell_length() == got.len(), "{what}: reported width {} of {got:?}", r.cell_length());
    assert!(r.is_empty() == got.is_empty(), "{what}: reported as empty: {}", r.is_empty());
    assert!(got == want, "{what}: got {got:?}\nexpected {want:?}");
}
pub fn c04_split<S: Src>(s: &mut S) {
    let mut c = vec![];
    let seg = segment(s, &mut c);
    let at = s.below(c.len() + 3);
    s.note(&|| format!("{:?} split at {at}", seg.text()));
    assert!(seg.cell_length() == c.len());
    let (l, r) = seg.split_at(at);
    // a grapheme lying across the cut stays whole on the left
    let k = if at < c.len() && c[at].g.is_none() { at + 1 } else { at.min(c.len()) };
    check("split_at left", &Strip::from_segment(l.clone()), &c[..k]);
    check("split_at right", &Strip::from_segment(r.clone()), &c[k..]);
    assert!(l.style() == seg.style() && r.style() == seg.style() && l.meta() == seg.meta() && r.meta() == seg.meta());
}
pub fn c04_cut<S: Src>(s: &mut S) {
    let mut c = vec![];
    let st = strip(s, &mut c);
    s.note(&|| format!("line {:?}", st.segments().iter().map(|x| x.text().to_string()).collect::<Vec<_>>()));
    check("line", &st, &c);
    assert!(st.text() == st.segments().iter().map(|x| x.text()).collect::<String>());
    let top = c.len() + 3;
    let (a, b) = (s.below(top), if s.below(8) == 0 { usize::MAX } else { s.below(top) });
    s.note(&|| format!("crop {a}..{b}"));
    check("crop", &st.crop(a, b), &cut(&c, a, b));
    let mut cuts: Vec<usize> = (0..s.below(5)).map(|_| s.below(top)).collect();
    if s.below(4) > 0 {
        cuts.sort();
    }
    s.note(&|| format!("cuts {cuts:?}"));
    let parts = st.divide(&cuts);
    let mut at = vec![0];
    for k in cuts.iter().copied().chain([c.len()]) {
        if k > *at.last().unwrap() && k <= c.len() {
            at.push(k);
        }
    }
    if cuts.is_empty() {
        check("divide", &parts[0], &c);
        assert!(parts.len() == 1);
    } else {
        assert!(parts.len() == at.len() - 1, "divide at {cuts:?} gave {} parts", parts.len());
        for i in 0..parts.len() {
            check("divide", &parts[i], &cut(&c, at[i], at[i + 1]));
        }
    }
    // joining puts the cells one after the other
    let all: Vec<C> = parts.iter().flat_map(|p| cells(p.segments())).collect();
    check("join", &Strip::join(parts), &all);
}
pub fn c04_pad<S: Src>(s: &mut S) {
    let mut c = vec![];
    let st = strip(s, &mut c);
    let w = s.below(c.len() + 7);
    let pad = style(s);
    s.note(&|| format!("line {:?} to {w}", st.text()));
    let b = blank(&pad, &None);
    let gap = w.saturating_sub(c.len());
    let with = |l: usize, r: usize| {
        let mut v = vec![b.clone(); l];
        v.extend(cut(&c, 0, w));
        v.extend(vec![b.clone(); r]);
        v
    };
    check("adjust_cell_length", &st.adjust_cell_length(w, pad.clone()), &with(0, gap));
    check("align left", &st.text_align(AlignHorizontal::Left, w, pad.clone()), &with(0, gap));
    check("align right", &st.text_align(AlignHorizontal::Right, w, pad.clone()), &with(gap, 0));
    check("align center", &st.text_align(AlignHorizontal::Center, w, pad.clone()), &with(gap / 2, gap - gap / 2));
    check("blank", &Strip::blank(w, pad.clone()), &vec![b.clone(); w]);
    // justification only widens blanks
    let j = st.justify(w, pad.clone());
    let got = cells(j.segments());
    assert!(j.cell_length() == w && got.len() == w, "justify to {w} has {} cells", got.len());
    let n = c.iter().filter(|x| x.g.as_deref() == Some(" ")).count();
    if n > 0 && c.len() < w {
        // the extra blanks are shared evenly, the last blanks taking one more
        let (mut k, mut want) = (0, vec![]);
        for x in &c {
            want.push(x.clone());
            if x.g.as_deref() == Some(" ") {
                want.extend(vec![x.clone(); gap / n + (k >= n - gap % n) as usize]);
                k += 1;
            }
        }
        assert!(got == want, "justify: got {got:?}\nexpected {want:?}");
    } else {
        assert!(got == with(0, gap), "justify without blanks");
    }
}
pub fn c04_simplify<S: Src>(s: &mut S) {
    let mut c = vec![];
    let mut st = strip(s, &mut c);
    if s.bool() {
        let k = s.below(c.len() + 1);
        st = Strip::join([st.crop(0, k), st.crop(k, usize::MAX)]);
    }
    s.note(&|| format!("line {:?}", st.segments().iter().map(|x| (x.text().to_string(), x.style().cloned())).collect::<Vec<_>>()));
    let chars = |st: &Strip| st.segments().iter().flat_map(|x| x.text().chars().map(|ch| (ch, x.style().cloned())).collect::<Vec<_>>()).collect::<Vec<_>>();
    let r = st.simplify();
    assert!(chars(&r) == chars(&st), "simplify: {:?}", r.segments());
    assert!(r.cell_length() == st.cell_length() && cells(r.segments()).len() == r.cell_length());
    // restyling keeps texts and widths
    let top = style(s).unwrap_or_default();
    let r = st.apply_style(&top);
    assert!(r.text() == st.text() && r.cell_length() == st.cell_length());
    for (a, b) in r.segments().iter().zip(st.segments()) {
        assert!(a.style().cloned() == Some(b.style().cloned().unwrap_or_default().apply(&top)) && a.text() == b.text() && a.meta() == b.meta());
    }
}
