use vstd::prelude::*;

verus! {
//@ include TEXT.rs
// ---------------------------------------------------------------- styles and what goes with them
#[verifier::external_body] pub struct Style { x: u8 }
#[verifier::external_body] pub struct Meta { x: u8 }
#[verifier::external_body] pub struct LinkStyle { x: u8 }
#[verifier::external_body] pub struct RichStyle { x: u8 }
#[verifier::external_body] pub struct RichParseError { x: u8 }
pub uninterp spec fn over(a: Style, b: Style) -> Style;
pub uninterp spec fn plain() -> Style;
pub uninterp spec fn linked(s: Style, l: LinkStyle, hovered: bool) -> Style;
pub uninterp spec fn converted(s: RichStyle) -> Style;
impl Style {
    #[verifier::external_body] fn clone(&self) -> (r: Style) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn apply(&self, other: &Style) -> (r: Style) ensures r == over(*self, *other) { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (*self == plain()) { unimplemented!() }
}
impl Meta {
    pub uninterp spec fn map(self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body] fn new() -> (r: Meta) ensures r.map() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Meta) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn extend(&mut self, more: Meta) ensures final(self).map() == old(self).map().union_prefer_right(more.map()) { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.map() =~= Map::<Seq<char>, Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body] fn entry(&self, key: &str) -> (r: Option<String>) ensures r is Some == self.map().dom().contains(key@), r is Some ==> r->Some_0@ == self.map()[key@] { unimplemented!() }
}
#[verifier::external_body]
fn style_or_plain(s: &Option<Style>) -> (r: Style) ensures r == base(*s) { unimplemented!() }
pub open spec fn base(s: Option<Style>) -> Style { match s { Some(s) => s, None => plain() } }
#[verifier::external_body]
fn is_this(h: &Option<String>, action: &String) -> (r: bool) ensures r == (h is Some && h->Some_0@ == action@) { unimplemented!() }
#[verifier::external_body] pub struct Segment { x: u8 }
impl Segment {
    pub uninterp spec fn text(self) -> Seq<char>;
    pub uninterp spec fn style(self) -> Option<Style>;
    pub uninterp spec fn meta(self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body] fn styled(t: &str, s: Style) -> (r: Segment) ensures r.text() == t@, r.style() == Some(s), r.meta() =~= Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] fn new(t: &str) -> (r: Segment) ensures r.text() == t@, r.style() is None, r.meta() =~= Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] fn with_meta(self, m: Meta) -> (r: Segment) ensures r.text() == self.text(), r.style() == self.style(), r.meta() == m.map() { unimplemented!() }
}
#[verifier::external_body] pub struct Strip { x: u8 }
impl Strip {
    pub uninterp spec fn parts(self) -> Seq<Segment>;
    #[verifier::external_body] fn new() -> (r: Strip) ensures r.parts() == Seq::<Segment>::empty() { unimplemented!() }
    #[verifier::external_body] fn from_segment(s: Segment) -> (r: Strip) ensures r.parts() == seq![s] { unimplemented!() }
    #[verifier::external_body] fn from_segments(v: Vec<Segment>) -> (r: Strip) ensures r.parts() == v@ { unimplemented!() }
}
pub
//@ extract crates/textual/src/content.rs struct InternalSpan
//@ sub HashMap<String, String> ==> Meta
//@ sub (start|end|style|meta): ==> pub \1:
//@ end
pub
//@ extract crates/textual/src/content.rs struct Content
//@ sub (text|style|spans|link_style|hovered_action): ==> pub \1:
//@ end
#[verifier::external_body]
fn is_void(t: &str) -> (r: bool) ensures r == (t@.len() == 0) { t.is_empty() }
fn lesser(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

// ---------------------------------------------------------------- what every byte of the text looks like
pub open spec fn on(s: InternalSpan, p: int) -> bool { s.start <= p < s.end }
/// the styles of the first n spans that lie over a byte, the later over the earlier
pub open spec fn style_at(b: Style, v: Seq<InternalSpan>, n: int, p: int) -> Style decreases n { if n <= 0 { b } else if on(v[n - 1], p) { over(style_at(b, v, n - 1, p), v[n - 1].style) } else { style_at(b, v, n - 1, p) } }
pub open spec fn meta_at(v: Seq<InternalSpan>, n: int, p: int) -> Map<Seq<char>, Seq<char>> decreases n { if n <= 0 { Map::empty() } else if on(v[n - 1], p) { meta_at(v, n - 1, p).union_prefer_right(v[n - 1].meta.map()) } else { meta_at(v, n - 1, p) } }
pub open spec fn click() -> Seq<char> { seq!['@', 'c', 'l', 'i', 'c', 'k'] }
/// with the style of links where there is an action to click
pub open spec fn look(c: Content, v: Seq<InternalSpan>, p: int) -> Style {
    let s = style_at(base(c.style), v, v.len() as int, p); let m = meta_at(v, v.len() as int, p);
    if m.dom().contains(click()) && c.link_style is Some { linked(s, c.link_style->Some_0, c.hovered_action is Some && c.hovered_action->Some_0@ == m[click()]) } else { s }
}
pub open spec fn notes(v: Seq<InternalSpan>, p: int) -> Map<Seq<char>, Seq<char>> { meta_at(v, v.len() as int, p) }
/// a segment shows the characters a to b of a line that starts at a byte of the text, each as that byte looks
pub open spec fn shows(g: Segment, line: Seq<char>, start: int, a: int, b: int, c: Content, v: Seq<InternalSpan>) -> bool {
    0 <= a <= b <= line.len() && g.text() == line.subrange(a, b) && forall|p: int| start + off(line, a) <= p < start + off(line, b) ==> #[trigger] look(c, v, p) == base(g.style()) && notes(v, p) == g.meta()
}
/// segments show a line up to a character, one after the other
#[verifier::opaque]
pub open spec fn drawn(gs: Seq<Segment>, cuts: Seq<int>, line: Seq<char>, start: int, to: int, c: Content, v: Seq<InternalSpan>) -> bool {
    cuts.len() == gs.len() + 1 && cuts[0] == 0 && cuts.last() == to && forall|i: int| 0 <= i < gs.len() ==> shows(#[trigger] gs[i], line, start, cuts[i], cuts[i + 1], c, v)
}
pub open spec fn draws(s: Strip, line: Seq<char>, start: int, c: Content, v: Seq<InternalSpan>) -> bool { exists|cuts: Seq<int>| #[trigger] drawn(s.parts(), cuts, line, start, line.len() as int, c, v) }
/// THE PROPERTY: the segments of a strip hold exactly the text of the line, in order
pub open spec fn joined(gs: Seq<Segment>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { joined(gs, n - 1) + gs[n - 1].text() } }
proof fn theorem_text(s: Strip, line: Seq<char>, start: int, c: Content, v: Seq<InternalSpan>)
    requires draws(s, line, start, c, v), ensures joined(s.parts(), s.parts().len() as int) == line
{ let cuts = choose|cuts: Seq<int>| #[trigger] drawn(s.parts(), cuts, line, start, line.len() as int, c, v); lemma_joined(s.parts(), cuts, line, start, c, v, s.parts().len() as int); reveal(drawn); assert(line.subrange(0, line.len() as int) =~= line); }
proof fn lemma_joined(gs: Seq<Segment>, cuts: Seq<int>, line: Seq<char>, start: int, c: Content, v: Seq<InternalSpan>, n: int)
    requires drawn(gs, cuts, line, start, line.len() as int, c, v), 0 <= n <= gs.len(), ensures 0 <= cuts[n] <= line.len(), joined(gs, n) == line.subrange(0, cuts[n]) decreases n
{ reveal(drawn); if n > 0 { lemma_joined(gs, cuts, line, start, c, v, n - 1); assert(shows(gs[n - 1], line, start, cuts[n - 1], cuts[n - 1 + 1], c, v)); assert(line.subrange(0, cuts[n - 1]) + line.subrange(cuts[n - 1], cuts[n]) =~= line.subrange(0, cuts[n])); } else { assert(line.subrange(0, 0) =~= seq![]); } }
proof fn lemma_drawn(gs: Seq<Segment>, cuts: Seq<int>, line: Seq<char>, start: int, to: int, c: Content, v: Seq<InternalSpan>, g: Segment, b: int)
    requires drawn(gs, cuts, line, start, to, c, v), shows(g, line, start, to, b, c, v), ensures drawn(gs.push(g), cuts.push(b), line, start, b, c, v)
{ reveal(drawn); let hs = gs.push(g); let d = cuts.push(b); assert forall|i: int| 0 <= i < hs.len() implies shows(#[trigger] hs[i], line, start, d[i], d[i + 1], c, v) by { if i < gs.len() { assert(shows(gs[i], line, start, cuts[i], cuts[i + 1], c, v)); } } }
/// spans begin and end between characters of a line, as far as they do so within it
pub open spec fn neat(v: Seq<InternalSpan>, line: Seq<char>, start: int) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> neat_at(line, v[i].start - start) && neat_at(line, v[i].end - start) }
pub open spec fn neat_at(line: Seq<char>, p: int) -> bool { 0 < p < bytes(line) ==> edge(line, p) }
/// the spans that matter for a line are enough
pub open spec fn vals(v: Seq<&InternalSpan>) -> Seq<InternalSpan> { Seq::new(v.len(), |i: int| *v[i]) }
#[verifier::opaque]
pub open spec fn enough(few: Seq<InternalSpan>, v: Seq<InternalSpan>, n: int, a: int, e: int) -> bool {
    &&& forall|b: Style, p: int| a <= p < e ==> #[trigger] style_at(b, few, few.len() as int, p) == style_at(b, v, n, p)
    &&& forall|p: int| a <= p < e ==> #[trigger] meta_at(few, few.len() as int, p) == meta_at(v, n, p)
    &&& forall|i: int| 0 <= i < few.len() ==> exists|j: int| 0 <= j < n && #[trigger] few[i] == #[trigger] v[j]
}
proof fn lemma_prefix(v: Seq<InternalSpan>, w: Seq<InternalSpan>, n: int, b: Style, p: int)
    requires 0 <= n <= v.len(), n <= w.len(), forall|i: int| 0 <= i < n ==> v[i] == w[i], ensures style_at(b, v, n, p) == style_at(b, w, n, p), meta_at(v, n, p) == meta_at(w, n, p) decreases n
{ if n > 0 { lemma_prefix(v, w, n - 1, b, p); } }
proof fn lemma_enough(few: Seq<InternalSpan>, v: Seq<InternalSpan>, n: int, a: int, e: int, now: Seq<InternalSpan>)
    requires enough(few, v, n, a, e), 0 <= n < v.len(), now == few.push(v[n]) || (now == few && (v[n].start >= e || v[n].end <= a)), ensures enough(now, v, n + 1, a, e)
{ reveal(enough);
    if now == few.push(v[n]) {
        assert forall|b: Style, p: int| a <= p < e implies #[trigger] style_at(b, now, now.len() as int, p) == style_at(b, v, n + 1, p) by { lemma_prefix(few, now, few.len() as int, b, p); assert(style_at(b, few, few.len() as int, p) == style_at(b, v, n, p)); }
        assert forall|p: int| a <= p < e implies #[trigger] meta_at(now, now.len() as int, p) == meta_at(v, n + 1, p) by { lemma_prefix(few, now, few.len() as int, plain(), p); assert(meta_at(few, few.len() as int, p) == meta_at(v, n, p)); }
        assert forall|i: int| 0 <= i < now.len() implies exists|j: int| 0 <= j < n + 1 && #[trigger] now[i] == #[trigger] v[j] by { if i < few.len() { let j = choose|j: int| 0 <= j < n && few[i] == #[trigger] v[j]; assert(now[i] == v[j]); } else { assert(now[i] == v[n]); } }
    } else {
        assert forall|b: Style, p: int| a <= p < e implies #[trigger] style_at(b, now, now.len() as int, p) == style_at(b, v, n + 1, p) by { assert(style_at(b, few, few.len() as int, p) == style_at(b, v, n, p)); }
        assert forall|p: int| a <= p < e implies #[trigger] meta_at(now, now.len() as int, p) == meta_at(v, n + 1, p) by { assert(meta_at(few, few.len() as int, p) == meta_at(v, n, p)); }
    }
}
proof fn lemma_none(v: Seq<InternalSpan>, a: int, e: int) ensures enough(seq![], v, 0, a, e) { reveal(enough); }
proof fn lemma_look(few: Seq<InternalSpan>, v: Seq<InternalSpan>, a: int, e: int, p: int, c: Content)
    requires enough(few, v, v.len() as int, a, e), a <= p < e, ensures look(c, few, p) == look(c, v, p), notes(few, p) == notes(v, p)
{ reveal(enough); assert(style_at(base(c.style), few, few.len() as int, p) == style_at(base(c.style), v, v.len() as int, p)); assert(meta_at(few, few.len() as int, p) == meta_at(v, v.len() as int, p)); }
proof fn lemma_neat_few(few: Seq<InternalSpan>, v: Seq<InternalSpan>, a: int, e: int, line: Seq<char>)
    requires enough(few, v, v.len() as int, a, e), neat(v, line, a), ensures neat(few, line, a)
{ reveal(enough); assert forall|i: int| #![trigger few[i]] 0 <= i < few.len() implies neat_at(line, few[i].start - a) && neat_at(line, few[i].end - a) by { let j = choose|j: int| 0 <= j < v.len() && few[i] == #[trigger] v[j]; assert(neat_at(line, v[j].start - a)); } }
/// nothing changes between two bytes with no beginning or end of a span between
pub open spec fn quiet(v: Seq<InternalSpan>, n: int, a: int, e: int) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < n ==> (v[i].start <= a || v[i].start >= e) && (v[i].end <= a || v[i].end >= e) }
proof fn lemma_quiet(v: Seq<InternalSpan>, n: int, a: int, e: int, p: int, b: Style)
    requires 0 <= n <= v.len(), quiet(v, n, a, e), a <= p < e, ensures style_at(b, v, n, p) == style_at(b, v, n, a), meta_at(v, n, p) == meta_at(v, n, a) decreases n
{ if n > 0 { lemma_quiet(v, n - 1, a, e, p, b); let s = v[n - 1]; assert(on(s, p) == on(s, a)); } }
/// the segment of a quiet stretch
proof fn lemma_shows(g: Segment, line: Seq<char>, start: int, a: int, b: int, c: Content, v: Seq<InternalSpan>, few: Seq<InternalSpan>)
    requires 0 <= a <= b <= line.len(), g.text() == line.subrange(a, b), enough(few, v, v.len() as int, start, start + bytes(line)), quiet(few, few.len() as int, start + off(line, a), start + off(line, b)),
        base(g.style()) == look(c, few, start + off(line, a)), g.meta() == notes(few, start + off(line, a)),
    ensures shows(g, line, start, a, b, c, v)
{ lemma_nth(line, a); lemma_nth(line, b);
    assert forall|p: int| start + off(line, a) <= p < start + off(line, b) implies #[trigger] look(c, v, p) == base(g.style()) && notes(v, p) == g.meta() by {
        lemma_look(few, v, start, start + bytes(line), p, c); lemma_quiet(few, few.len() as int, start + off(line, a), start + off(line, b), p, base(c.style));
    }
}
impl Content {
    #[verifier::external_body]
    fn apply_link_style(&self, base_style: Style, link_style: &LinkStyle, is_hovered: bool) -> (r: Style) ensures r == linked(base_style, *link_style, is_hovered) { unimplemented!() }
//@ extract crates/textual/src/content.rs fn Content::render_line_with_spans
//@ ret r
//@ sub let (\w+): Vec<&InternalSpan> = spans\s*\.iter\(\)\s*\.filter\(\|(\w+)\| (.*?)\)\s*\.collect\(\); ==> let mut \1: Vec<&InternalSpan> = Vec::new(); for k in 0..spans.len() { let \2 = &spans[k]; let ghost was = vals(\1@); if \3 { \1.push(\2); } proof { let ghost now = vals(\1@); assert(now =~= was.push(*\2) || now =~= was); lemma_enough(was, spans@, k as int, line_start as int, line_end as int, now); } }
//@ sub line\.is_empty\(\) ==> is_void(line)
//@ sub !text\.is_empty\(\) ==> !is_void(text)
//@ sub line\.len\(\) ==> byte_len(line)
//@ sub self\.style\.clone\(\)\.unwrap_or_default\(\) ==> style_or_plain(&self.style)
//@ sub HashMap::new\(\) ==> Meta::new()
//@ sub for span in &relevant_spans \{ ==> for k in 0..relevant_spans.len() { let span = relevant_spans[k];
//@ sub meta\.get\("@click"\)\.cloned\(\) ==> meta.entry("@click")
//@ sub if let Some\(ref action\) = click_action \{ ==> if let Some(action) = &click_action {
//@ sub self\.hovered_action\.as_ref\(\) == Some\(action\) ==> is_this(&self.hovered_action, action)
//@ sub let mut segments = Vec::new\(\); ==> let mut segments: Vec<Segment> = Vec::new();
//@ sub next_change\.min\(byte_len\(line\)\) ==> lesser(next_change, byte_len(line))
//@ sub &line\[pos\.\.end\] ==> slice(line, pos, end)
//@ sub? return Strip::from_segment\(segment\); ==> proof { let few = vals(relevant_spans@); assert(ln.subrange(0, ln.len() as int) =~= ln); lemma_shows(segment, ln, st, 0, ln.len() as int, me, v, few); lemma_drawn(seq![], seq![0int], ln, st, 0, me, v, segment, ln.len() as int); assert(seq![].push(segment) =~= seq![segment]); } return Strip::from_segment(segment);
//@ sub? Strip::from_segments\(segments\)\s*\}\s*$ ==> proof { lemma_nth(ln, at); assert(at == ln.len()) by { lemma_off(ln, at, ln.len() as int); } } Strip::from_segments(segments) }
//@ contract
    requires line_end == line_start + bytes(line@), neat(spans@, line@, line_start as int),
    ensures draws(r, line@, line_start as int, *self, spans@),
//@ start
    let ghost v = spans@; let ghost ln = line@; let ghost st = line_start as int; let ghost mut cuts: Seq<int> = seq![0]; let ghost me = *self;
    proof {
        lemma_none(v, st, st + bytes(ln)); lemma_nth(ln, 0); lemma_nth(ln, ln.len() as int); assert(off(ln, 0) == 0); reveal_strlit("@click"); assert("@click"@ =~= click());
        assert(drawn(seq![], seq![0int], ln, st, 0, me, v)) by { reveal(drawn); }
        assert(vals(seq![]) =~= seq![]);
    }
//@ loop 1
    invariant enough(vals(relevant_spans@), spans@, k as int, line_start as int, line_end as int),
//@ before_loop 2
    let ghost few = vals(relevant_spans@); let ghost mut at = 0int;
    proof { lemma_neat_few(few, v, st, st + bytes(ln), ln); }
//@ loop 2
    invariant ln == line@, v == spans@, st == line_start, me == *self, few == vals(relevant_spans@), neat(few, ln, st), st + bytes(ln) <= usize::MAX, "@click"@ == click(),
        enough(few, v, v.len() as int, st, st + bytes(ln)), 0 <= at <= ln.len(), pos == off(ln, at), drawn(segments@, cuts, ln, st, at, me, v),
    decreases bytes(ln) - pos,
//@ loop_start 2
    let ghost a = at; let ghost had = segments@; proof { lemma_nth(ln, a); }
//@ loop 3
    invariant few == vals(relevant_spans@), me == *self, style == style_at(base(me.style), few, k as int, abs_pos as int), meta.map() == meta_at(few, k as int, abs_pos as int),
//@ loop 4
    invariant few == vals(relevant_spans@), neat(few, ln, st), st == line_start, abs_pos == st + pos, pos < next_change <= bytes(ln), edge(ln, next_change as int), edge(ln, pos as int), st + bytes(ln) <= usize::MAX, quiet(few, k as int, abs_pos as int, st + next_change),
//@ loop_start 4
    proof { assert(few[k as int] == *relevant_spans@[k as int]); let s = few[k as int]; assert(neat_at(ln, s.start - st) && neat_at(ln, s.end - st)); }
//@ loop_start 3
    proof { assert(few[k as int] == *relevant_spans@[k as int]); }
//@ before_loop 4
    let ghost stl = style; let ghost mt = meta.map(); proof { lemma_nth(ln, ln.len() as int); assert(stl == look(me, few, abs_pos as int)); }
//@ loop_end 2
    proof {
        let b = nth(ln, pos as int); lemma_nth(ln, b); if a >= b { lemma_off(ln, b, a); }
        let g = segments@.last(); lemma_shows(g, ln, st, a, b, me, v, few);
        lemma_drawn(had, cuts, ln, st, a, me, v, g, b); assert(had.push(g) =~= segments@); cuts = cuts.push(b); at = b;
    }
//@ end
//@ extract crates/textual/src/content.rs fn Content::lines_with_spans
//@ ret r
//@ sub let mut result = Vec::new\(\); ==> let mut result: Vec<Strip> = Vec::new(); let lines = split_lines(&self.text);
//@ sub for line in self\.split_lines_preserving_trailing\(\) \{ ==> for k in 0..lines.len() { let line = lines[k];
//@ sub line\.len\(\) ==> byte_len(line)
//@ contract
    requires neat(spans@, self.text@, 0),
    ensures all_drawn(r@, lines_of(self.text@), lines_of(self.text@).len() as int, *self, spans@),
//@ start
    let ghost t = self.text@; proof { axiom_lines(t); }
//@ loop 1
    invariant t == self.text@, texts(lines@) == lines_of(t), split_ok(t, lines_of(t)), lines@.len() == lines_of(t).len(), neat(spans@, t, 0), bytes(t) < usize::MAX, k < lines@.len() ==> line_start == off(t, begin(lines_of(t), k as int)),
        all_drawn(result@, lines_of(t), k as int, *self, spans@),
//@ loop_start 1
    let ghost kk = k as int; let ghost had = result@;
    proof { assert(texts(lines@)[kk] == lines@[kk]@); lemma_line(t, kk); lemma_neat_line(spans@, t, kk); }
//@ loop_end 1
    proof { assert(result@ =~= had.push(strip)); assert(draws(result@[kk], lines_of(t)[kk], off(t, begin(lines_of(t), kk)), *self, spans@)); assert forall|i: int| 0 <= i < kk implies draws(#[trigger] result@[i], lines_of(t)[i], off(t, begin(lines_of(t), i)), *self, spans@) by { assert(result@[i] == had[i]); } }
//@ after_loop 1
    proof { assert(lines@.len() > 0); }
//@ end
//@ extract crates/textual/src/content.rs fn Content::lines
//@ ret r
//@ sub self\.text\.is_empty\(\) ==> is_void(&self.text)
//@ sub vec!\[Strip::new\(\)\] ==> one_strip(Strip::new())
//@ sub self\.lines_with_spans\(spans\) ==> self.lines_with_spans(spans.as_slice())
//@ sub self\.split_lines_preserving_trailing\(\)\s*\.map\(\|line\| \{(.*?)\}\)\s*\.collect\(\) ==> { let lines = split_lines(&self.text); let mut result: Vec<Strip> = Vec::new(); for k in 0..lines.len() { let line = lines[k]; let strip = {\1}; result.push(strip); } result }
//@ contract
    requires neat(self.marks(), self.text@, 0),
    ensures all_drawn(r@, lines_of(self.text@), lines_of(self.text@).len() as int, *self, self.marks()),
//@ start
    let ghost t = self.text@; proof { axiom_lines(t); if t.len() == 0 { lemma_void_lines(t); } }
//@ sub? one_strip\(Strip::new\(\)\) ==> { let r = one_strip(Strip::new()); proof { assert(drawn(r@[0].parts(), seq![0int], lines_of(t)[0], 0, 0, *self, self.marks())) by { reveal(drawn); } assert(draws(r@[0], lines_of(t)[0], 0, *self, self.marks())); assert(off(t, begin(lines_of(t), 0)) == 0); } r }
//@ loop 1
    invariant t == self.text@, texts(lines@) == lines_of(t), split_ok(t, lines_of(t)), lines@.len() == lines_of(t).len(), self.spans is None, result@.len() == k,
        all_drawn(result@, lines_of(t), k as int, *self, self.marks()),
//@ loop_start 1
    let ghost kk = k as int; let ghost had = result@;
    proof { assert(texts(lines@)[kk] == lines@[kk]@); lemma_line(t, kk); }
//@ loop_end 1
    proof { let st = off(t, begin(lines_of(t), kk)); let g = strip.parts()[0]; let e: Seq<InternalSpan> = seq![];
        let ln = lines_of(t)[kk];
        assert(drawn(seq![], seq![0int], ln, st, 0, *self, e)) by { reveal(drawn); }
        { lemma_none(e, st, st + bytes(ln)); assert(ln.subrange(0, ln.len() as int) =~= ln); lemma_shows(g, ln, st, 0, ln.len() as int, *self, e, e); lemma_drawn(seq![], seq![0int], ln, st, 0, *self, e, g, ln.len() as int); assert(seq![].push(g) =~= strip.parts()); }
        assert(result@ =~= had.push(strip)); assert(draws(result@[kk], ln, st, *self, e)); assert forall|i: int| 0 <= i < kk implies draws(#[trigger] result@[i], lines_of(t)[i], off(t, begin(lines_of(t), i)), *self, e) by { assert(result@[i] == had[i]); } }
//@ end
//@ extract crates/textual/src/content.rs fn Content::from_markup
//@ ret r
//@ sub SIG:rich::RichParseError ==> RichParseError
//@ sub rich::ParsedMarkup::parse ==> ParsedMarkup::parse
//@ sub let spans: Vec<InternalSpan> = parsed\s*\.spans\(\)\s*\.iter\(\)\s*\.map\(\|(\w+)\| (InternalSpan \{.*?\})\)\s*\.collect\(\); ==> let mut spans: Vec<InternalSpan> = Vec::new(); for k in 0..parsed.spans.len() { let \1 = &parsed.spans[k]; let one = \2; spans.push(one); }
//@ sub parsed\.text\(\)\.to_string\(\) ==> owned(&parsed.text)
//@ contract
    ensures r is Ok == markup_of(markup@) is Some,
        r is Ok ==> r->Ok_0.text@ == markup_of(markup@)->Some_0.text@ && same_spans(r->Ok_0.marks(), markup_of(markup@)->Some_0.spans@) && r->Ok_0.style is None && r->Ok_0.link_style is None && neat(r->Ok_0.marks(), r->Ok_0.text@, 0),
//@ loop 1
    invariant same_spans(spans@, parsed.spans@.subrange(0, k as int)), markup_of(markup@) is Some, parsed == markup_of(markup@)->Some_0,
//@ loop_start 1
    let ghost had = spans@;
//@ loop_end 1
    proof { let p = parsed.spans@.subrange(0, k + 1); assert(p.drop_last() =~= parsed.spans@.subrange(0, k as int)); assert(spans@ =~= had.push(spans@[k as int])); assert forall|i: int| #![trigger spans@[i]] 0 <= i < spans@.len() implies same_span(spans@[i], p[i]) by { if i < had.len() { assert(had[i] == spans@[i]); assert(p[i] == parsed.spans@.subrange(0, k as int)[i]); } } }
//@ after_loop 1
    proof { assert(parsed.spans@.subrange(0, parsed.spans@.len() as int) =~= parsed.spans@); assert forall|i: int| #![trigger spans@[i]] 0 <= i < spans@.len() implies neat_at(parsed.text@, spans@[i].start - 0) && neat_at(parsed.text@, spans@[i].end - 0) by { assert(same_span(spans@[i], parsed.spans@[i])); } assert(spans@.len() == 0 ==> spans@ =~= seq![]); }
//@ end
    #[verifier::external_body]
    fn convert_rich_style(rich_style: &RichStyle) -> (r: Style) ensures r == converted(*rich_style) { unimplemented!() }
    pub open spec fn marks(self) -> Seq<InternalSpan> { match self.spans { Some(v) => v@, None => seq![] } }
}
// ---------------------------------------------------------------- lines
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub uninterp spec fn lines_of(t: Seq<char>) -> Seq<Seq<char>>;
/// the character where line k starts
pub open spec fn begin(v: Seq<Seq<char>>, k: int) -> int decreases k { if k <= 0 { 0 } else { begin(v, k - 1) + v[k - 1].len() + 1 } }
pub open spec fn line_ok(t: Seq<char>, v: Seq<Seq<char>>, k: int) -> bool {
    0 <= begin(v, k) <= begin(v, k) + v[k].len() <= t.len() && v[k] == t.subrange(begin(v, k), begin(v, k) + v[k].len()) && !v[k].contains('\n') && (k < v.len() - 1 ==> begin(v, k + 1) <= t.len() && t[begin(v, k + 1) - 1] == '\n') && (k == v.len() - 1 ==> begin(v, k + 1) == t.len() + 1)
}
/// the lines are the text between its line ends
pub open spec fn split_ok(t: Seq<char>, v: Seq<Seq<char>>) -> bool { v.len() > 0 && forall|k: int| 0 <= k < v.len() ==> #[trigger] line_ok(t, v, k) }
pub axiom fn axiom_lines(t: Seq<char>) ensures split_ok(t, lines_of(t));
#[verifier::external_body]
fn split_lines<'a>(t: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == lines_of(t@), bytes(t@) < usize::MAX { t.split('\n').collect() }
#[verifier::external_body]
fn owned(t: &str) -> (r: String) ensures r@ == t@ { t.to_string() }
fn one_strip(s: Strip) -> (r: Vec<Strip>) ensures r@ == seq![s] { let mut v = Vec::new(); v.push(s); proof { assert(v@ =~= seq![s]); } v }
pub open spec fn all_drawn(v: Seq<Strip>, lines: Seq<Seq<char>>, n: int, c: Content, m: Seq<InternalSpan>) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n ==> draws(#[trigger] v[k], lines[k], off(c.text@, begin(lines, k)), c, m)
}
proof fn lemma_off_sub(s: Seq<char>, a: int, b: int, k: int)
    requires 0 <= a <= b <= s.len(), 0 <= k <= b - a, ensures off(s, a + k) == off(s, a) + off(s.subrange(a, b), k), decreases k,
{ if k > 0 { lemma_off_sub(s, a, b, k - 1); } }
proof fn lemma_line(t: Seq<char>, k: int)
    requires split_ok(t, lines_of(t)), 0 <= k < lines_of(t).len(),
    ensures off(t, begin(lines_of(t), k)) + bytes(lines_of(t)[k]) <= bytes(t), k + 1 < lines_of(t).len() ==> off(t, begin(lines_of(t), k + 1)) == off(t, begin(lines_of(t), k)) + bytes(lines_of(t)[k]) + 1,
{ let v = lines_of(t); assert(line_ok(t, v, k)); let a = begin(v, k); let b = a + v[k].len(); lemma_off_sub(t, a, b, b - a); lemma_off(t, b, t.len() as int); if k + 1 < v.len() { assert(begin(v, k + 1) == b + 1); assert(t[b] == '\n'); assert(off(t, b + 1) == off(t, b) + len8(t[b])); } }
proof fn lemma_neat_line(m: Seq<InternalSpan>, t: Seq<char>, k: int)
    requires split_ok(t, lines_of(t)), 0 <= k < lines_of(t).len(), neat(m, t, 0), ensures neat(m, lines_of(t)[k], off(t, begin(lines_of(t), k)))
{ let v = lines_of(t); let st = off(t, begin(v, k));
  assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies neat_at(v[k], m[i].start - st) && neat_at(v[k], m[i].end - st) by { assert(neat_at(t, m[i].start - 0) && neat_at(t, m[i].end - 0)); lemma_neat_at(t, k, m[i].start as int); lemma_neat_at(t, k, m[i].end as int); } }
proof fn lemma_neat_at(t: Seq<char>, k: int, p: int)
    requires split_ok(t, lines_of(t)), 0 <= k < lines_of(t).len(), neat_at(t, p), ensures neat_at(lines_of(t)[k], p - off(t, begin(lines_of(t), k)))
{ let v = lines_of(t); assert(line_ok(t, v, k)); let a = begin(v, k); let b = a + v[k].len(); let l = v[k];
  lemma_line(t, k); lemma_off_sub(t, a, b, b - a); lemma_nth(t, a); lemma_nth(t, b);
  if 0 < p - off(t, a) < bytes(l) { let n = nth(t, p); assert(off(t, n) == p); if n <= a { lemma_off(t, n, a); } if n >= b { lemma_off(t, b, n); } lemma_off_sub(t, a, b, n - a); assert(off(l, n - a) == p - off(t, a)); } }
proof fn lemma_void_lines(t: Seq<char>) requires t.len() == 0, split_ok(t, lines_of(t)), ensures lines_of(t).len() == 1, lines_of(t)[0].len() == 0
{ let v = lines_of(t); assert(line_ok(t, v, 0)); if v.len() > 1 { assert(begin(v, 1) == begin(v, 0) + v[0].len() + 1); } }
// ---------------------------------------------------------------- from markup
pub
//@ extract crates/rich/src/span.rs struct Span
//@ sub HashMap<String, String> ==> Meta
//@ sub Style ==> RichStyle
//@ end
pub
//@ extract crates/rich/src/markup.rs struct ParsedMarkup
//@ sub (text|spans): ==> pub \1:
//@ end
pub uninterp spec fn markup_of(t: Seq<char>) -> Option<ParsedMarkup>;
impl ParsedMarkup {
    /// the contract proved in C15_markup: the ranges of the spans lie between characters of the text
    #[verifier::external_body]
    fn parse(t: &str) -> (r: Result<ParsedMarkup, RichParseError>) ensures r is Ok == markup_of(t@) is Some, r is Ok ==> r->Ok_0 == markup_of(t@)->Some_0 && forall|i: int| #![trigger r->Ok_0.spans@[i]] 0 <= i < r->Ok_0.spans@.len() ==> edge(r->Ok_0.text@, r->Ok_0.spans@[i].start as int) && edge(r->Ok_0.text@, r->Ok_0.spans@[i].end as int) { unimplemented!() }
}
pub open spec fn same_span(a: InternalSpan, b: Span) -> bool { a.start == b.start && a.end == b.end && a.style == converted(b.style) && a.meta == b.meta }
pub open spec fn same_spans(a: Seq<InternalSpan>, b: Seq<Span>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> same_span(a[i], b[i]) }
}
