//! C20: wrapped text.
use crate::c02::GRAPHEMES;
use crate::src::Src;
use tcss::types::{TextOverflow, TextWrap};
use textual::content::{Content, WrappedLine};

/// One user-perceived character: its text, cells, whether it is blank, and whether it is bold and underlined.
type G = (&'static str, usize, bool, [bool; 2]);
/// Characters a wrapping rule might treat specially.
const PLAIN: [&str; 20] = [".", ",", "-", "'", "/", "_", "!", ")", "(", ":", ";", "?", "0", "Z", "\"", "…", "·", "%", "&", "é"];
fn is_blank(t: &str) -> bool {
    t.chars().all(|c| c.is_whitespace())
}
fn make<S: Src>(s: &mut S) -> (Vec<G>, Content, bool, String) {
    let marked = s.bool();
    let n = s.below(22);
    let long = s.bool();
    let (mut text, mut out, mut open) = (vec![], String::new(), vec![]);
    let mut look = [false; 2];
    for _ in 0..n {
        if marked && s.below(4) == 0 {
            if open.is_empty() || s.bool() {
                let k = s.below(2);
                out.push_str(["[bold]", "[underline]"][k]);
                open.push((k, look));
                look[k] = true;
            } else {
                out.push_str("[/]");
                look = open.pop().unwrap().1;
            }
        }
        let (t, w) = match s.below(if long { 14 } else { 6 }) {
            0 => (" ", 1),
            1 => (["\n", " ", "\u{a0}"][s.below(3)], 1),
            2 => (PLAIN[s.below(PLAIN.len())], 1),
            _ => GRAPHEMES[s.below(GRAPHEMES.len())],
        };
        out.push_str(t);
        text.push((t, w, is_blank(t), look));
    }
    let all: String = text.iter().map(|g| g.0).collect();
    let c = if marked { Content::from_markup(&out).unwrap() } else { Content::new(all) };
    (text, c, marked, out)
}
fn cells(l: &WrappedLine) -> usize {
    l.strip.segments().iter().map(|g| g.text()).collect::<String>().graphemes_width()
}
trait W {
    fn graphemes_width(&self) -> usize;
}
impl W for String {
    fn graphemes_width(&self) -> usize {
        use unicode_segmentation::UnicodeSegmentation;
        self.graphemes(true).map(|g| GRAPHEMES.iter().find(|x| x.0 == g).map_or_else(|| if PLAIN.contains(&g) || is_blank(g) { 1 } else { panic!("unknown character {g:?}") }, |x| x.1)).sum()
    }
}
/// The characters of a wrapped line with their looks.
fn seen(l: &WrappedLine) -> Vec<(char, [bool; 2])> {
    l.strip.segments().iter().flat_map(|g| g.text().chars().map(|c| (c, g.style().map_or([false; 2], |s| [s.bold, s.underline]))).collect::<Vec<_>>()).collect()
}
pub fn c20_wrap<S: Src>(s: &mut S) {
    let (text, c, marked, out) = make(s);
    let narrow = s.bool();
    let width = 2 + s.below(if narrow { 5 } else { 14 });
    let overflow = [TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis][s.below(3)];
    s.note(&|| format!("text {out:?} marked {marked} width {width} {overflow:?}"));
    let got = match overflow {
        TextOverflow::Fold if s.bool() => c.wrap_with_line_end(width),
        _ => c.wrap_with_line_end_overflow(width, overflow, TextWrap::Wrap),
    };
    let plain = c.wrap(width);
    assert!(plain.len() == c.wrap_with_line_end(width).len(), "wrap and wrap_with_line_end differ");
    for l in &got {
        assert!(cells(l) <= width && l.strip.cell_length() <= width, "line {:?} is wider than {width}", l.strip.text());
    }
    assert!(got.last().is_some_and(|l| l.line_end), "the last line is not marked as an end");
    let lines: Vec<&[G]> = text.split(|g| g.0 == "\n").collect();
    let groups: Vec<&[WrappedLine]> = got.split_inclusive(|l| l.line_end).collect();
    assert_eq!(groups.len(), lines.len(), "lines that come to an end");
    for (line, group) in lines.iter().zip(groups) {
        let want: Vec<(char, [bool; 2])> = line.iter().filter(|g| !g.2).flat_map(|g| g.0.chars().map(|c| (c, g.3))).collect();
        let have: Vec<(char, [bool; 2])> = group.iter().flat_map(seen).filter(|x| !x.0.is_whitespace()).collect();
        assert_eq!(have, want, "characters and looks");
        // where words end, counted in characters that are not blank
        let mut edges: Vec<(usize, usize)> = vec![(0, 0)];
        let mut at = 0;
        for w in line.split(|g| g.2) {
            at += w.iter().map(|g| g.0.chars().count()).sum::<usize>();
            edges.push((at, w.iter().map(|g| g.1).sum()));
        }
        let mut at = 0;
        for l in group {
            at += seen(l).iter().filter(|x| !x.0.is_whitespace()).count();
            let word = edges.iter().find(|e| e.0 >= at).unwrap();
            assert!(word.0 == at || word.1 > width, "a word of {} cells broken behind {:?}", word.1, l.strip.text());
        }
    }
}
/// Without wrapping: clipped, cut with an ellipsis, or folded.
pub fn c20_overflow<S: Src>(s: &mut S) {
    let (text, c, marked, out) = make(s);
    let width = 2 + s.below(14);
    let overflow = [TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis][s.below(3)];
    s.note(&|| format!("text {out:?} marked {marked} width {width} {overflow:?}"));
    let got = c.wrap_with_line_end_overflow(width, overflow, TextWrap::NoWrap);
    for l in &got {
        assert!(cells(l) <= width, "line {:?} is wider than {width}", l.strip.text());
    }
    let lines: Vec<&[G]> = text.split(|g| g.0 == "\n").collect();
    let groups: Vec<&[WrappedLine]> = got.split_inclusive(|l| l.line_end).collect();
    assert_eq!(groups.len(), lines.len(), "lines that come to an end");
    for (line, group) in lines.iter().zip(groups) {
        let want: Vec<(char, [bool; 2])> = line.iter().flat_map(|g| g.0.chars().map(|c| (c, g.3))).collect();
        let total: usize = line.iter().map(|g| g.1).sum();
        let have: Vec<(char, [bool; 2])> = group.iter().flat_map(seen).collect();
        if total <= width || matches!(overflow, TextOverflow::Fold) {
            assert_eq!(have, want, "characters and looks");
            continue;
        }
        assert_eq!(group.len(), 1, "lines");
        let room = if matches!(overflow, TextOverflow::Ellipsis) { width - 1 } else { width };
        // the characters that fit
        let mut used = 0;
        let fit: Vec<(char, [bool; 2])> = line.iter().take_while(|g| { used += g.1; used <= room }).flat_map(|g| g.0.chars().map(|c| (c, g.3))).collect();
        assert!(have.starts_with(&fit), "characters that fit");
        let rest: String = have[fit.len()..].iter().map(|x| x.0).collect();
        let want = if matches!(overflow, TextOverflow::Ellipsis) { "…" } else { "" };
        assert!(rest.trim_start_matches(' ') == want && cells(&group[0]) == width, "{:?} behind the characters that fit", rest);
    }
}
