//! C27: fuzzy matching and highlighting.
use crate::src::Src;
use textual::Matcher;
use textual::fuzzy::FuzzySearch;

const CHARS: &[char] = &['a', 'b', 'c', 'A', 'B', ' ', '_', '[', ']', '\\', '/', 'é', 'É', '界', 'İ', 'i', 'Σ', 'ß', '\u{301}', 'x'];
fn text<S: Src>(s: &mut S, max: usize) -> String {
    let n = if s.bool() { 4 } else { CHARS.len() };
    (0..s.below(max + 1)).map(|_| CHARS[s.below(n)]).collect()
}
fn low(c: char) -> char {
    c.to_lowercase().next().unwrap()
}
/// A candidate matches exactly when the characters of the query stand in it in order; the positions say where.
pub fn c27_match<S: Src>(s: &mut S) {
    let (q, c, case) = (text(s, 4), text(s, 10), s.bool());
    s.note(&|| format!("query {q:?} candidate {c:?} case {case}"));
    let same = |a: char, b: char| if case { a == b } else { low(a) == low(b) };
    let (qs, cs): (Vec<char>, Vec<char>) = (q.chars().collect(), c.chars().collect());
    let mut rest = cs.iter();
    let want = !qs.is_empty() && qs.iter().all(|&a| rest.any(|&b| same(a, b)));
    let (score, at) = FuzzySearch::new(case).match_candidate(&q, &c);
    assert!(want == (score > 0.0), "score {score}, but the characters {} in order", if want { "are there" } else { "are not there" });
    assert!(want != at.is_empty(), "positions {at:?}");
    if want {
        assert!(at.len() == qs.len() && at.windows(2).all(|w| w[0] < w[1]) && at.iter().all(|&i| i < cs.len()), "positions {at:?}");
        assert!(at.iter().zip(&qs).all(|(&i, &a)| same(a, cs[i])), "positions {at:?} hold other characters");
        let whole = (0..cs.len()).any(|i| i + qs.len() <= cs.len() && qs.iter().zip(&cs[i..]).all(|(&a, &b)| same(a, b)));
        assert!(!whole || at.windows(2).all(|w| w[0] + 1 == w[1]), "positions {at:?} are apart although the query is there in one piece");
    }
    let m = Matcher::new(q.clone(), Some("bold".into()), case);
    assert!(m.match_score(&c) == score, "match_score");
    let marked = m.highlight(&c);
    let p = rich::ParsedMarkup::parse(&marked).unwrap_or_else(|e| panic!("{marked:?} is no markup: {e:?}"));
    assert!(p.text() == c, "{marked:?} reads {:?}", p.text());
    for (i, (byte, ch)) in c.char_indices().enumerate() {
        let (is, want) = (p.style_at(byte).text.bold, at.contains(&i) && !ch.is_whitespace());
        assert!(is == want, "{ch:?} at {i} is {}marked in {marked:?}", if is { "" } else { "not " });
    }
}
