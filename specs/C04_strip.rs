use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- the code's types
pub
//@ extract crates/tcss/src/types/text.rs enum AlignHorizontal
//@ end
/// colours and attributes are never looked at by the functions below: any type with a faithful clone will do
#[verifier::external_body] pub struct Style { x: u8 }
#[verifier::external_body] pub struct Meta { x: u8 }
impl Style { #[verifier::external_body] pub fn clone(&self) -> (r: Style) ensures r == *self { unimplemented!() } }
impl Meta { #[verifier::external_body] pub fn clone(&self) -> (r: Meta) ensures r == *self { unimplemented!() } }
pub
//@ extract crates/textual/src/segment.rs struct Segment
//@ sub (?m)^(\s*)(\w+): ==> \1pub \2:
//@ sub HashMap<String, String> ==> Meta
//@ end
pub type SegmentVec = Vec<Segment>;
pub
//@ extract crates/textual/src/strip.rs struct Strip
//@ sub (?m)^(\s*)(\w+): ==> \1pub \2:
//@ end

// ---------------------------------------------------------------- cells
/// graphemes of a text and the cells each takes (the unicode crates)
pub uninterp spec fn gs(t: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn gw(g: Seq<char>) -> int;
/// number of graphemes before a byte position that is a grapheme boundary
pub uninterp spec fn at(t: Seq<char>, byte: int) -> int;
pub ghost struct Cv { pub sym: Seq<char>, pub part: int, pub width: int, pub style: Option<Style> }
pub open spec fn blank_cell(st: Option<Style>) -> Cv { Cv { sym: seq![' '], part: 0, width: 1, style: st } }
pub open spec fn grapheme_cells(g: Seq<char>, st: Option<Style>) -> Seq<Cv> { Seq::new(gw(g) as nat, |i: int| Cv { sym: g, part: i, width: gw(g), style: st }) }
pub open spec fn cells_of(g: Seq<Seq<char>>, st: Option<Style>) -> Seq<Cv> decreases g.len()
{ if g.len() == 0 { Seq::empty() } else { cells_of(g.drop_last(), st) + grapheme_cells(g.last(), st) } }
pub open spec fn widths_ok(g: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < g.len() ==> 1 <= gw(#[trigger] g[i]) <= 2 }
/// heads of two-cell graphemes and their right halves are together
pub open spec fn pair_at(c: Seq<Cv>, i: int) -> bool {
    (c[i].part == 0 || c[i].part == 1) && 1 <= c[i].width <= 2 && (c[i].part == 0 && c[i].width == 2 ==> i + 1 < c.len() && c[i + 1].part == 1) && (c[i].part == 1 ==> i > 0 && c[i - 1].part == 0 && c[i - 1].width == 2)
}
pub open spec fn pairs(c: Seq<Cv>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] pair_at(c, i) }
/// the cells a..b; half a grapheme at either end becomes a blank of the same style
pub open spec fn tidy(c: Seq<Cv>, a: int, b: int) -> Seq<Cv> {
    Seq::new((b - a) as nat, |i: int| if (i == 0 && c[a].part == 1) || (i == b - a - 1 && c[b - 1].part == 0 && c[b - 1].width == 2) { blank_cell(c[a + i].style) } else { c[a + i] })
}
pub open spec fn blanks(n: int, st: Option<Style>) -> Seq<Cv> { Seq::new(n as nat, |i: int| blank_cell(st)) }
impl Segment {
    pub open spec fn cells(&self) -> Seq<Cv> { cells_of(gs(self.text@), self.style) }
    pub open spec fn wf(&self) -> bool { self.cell_length == self.cells().len() }
}
pub open spec fn same(a: Segment, b: Segment) -> bool { a.text@ == b.text@ && a.cell_length == b.cell_length && a.style == b.style && a.meta == b.meta }
pub open spec fn cat(s: Seq<Segment>) -> Seq<Cv> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().cells() } }
pub open spec fn all_wf(s: Seq<Segment>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
impl Strip {
    pub open spec fn cells(&self) -> Seq<Cv> { cat(self.segments@) }
    /// the reported width is that of the text
    pub open spec fn wf(&self) -> bool { all_wf(self.segments@) && self.cell_length == self.cells().len() }
}
/// the text of a line, character by character, with its style
pub open spec fn seg_chars(s: Segment) -> Seq<(char, Option<Style>)> { s.text@.map_values(|c: char| (c, s.style)) }
pub open spec fn chars(s: Seq<Segment>) -> Seq<(char, Option<Style>)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { chars(s.drop_last()) + seg_chars(s.last()) } }

// ---------------------------------------------------------------- trusted: the unicode crates and String
#[verifier::external_body] proof fn axiom_widths(t: Seq<char>) ensures widths_ok(gs(t)), gs(t).len() <= t.len() {}
#[verifier::external_body] proof fn axiom_empty() ensures gs(Seq::<char>::empty()) == Seq::<Seq<char>>::empty() {}
#[verifier::external_body] fn display_width(t: &str) -> (r: usize) ensures r == cells_of(gs(t@), None).len() { unimplemented!() }
#[verifier::external_body] fn grapheme_width(g: &str) -> (r: usize) requires 1 <= gw(g@) ensures r == gw(g@) { unimplemented!() }
#[verifier::external_body] fn grapheme_list(t: &String) -> (r: Vec<(usize, &str)>)
    ensures r@.len() == gs(t@).len(), at(t@, 0) == 0, forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i].1@ == gs(t@)[i] && at(t@, r@[i].0 as int) == i { unimplemented!() }
#[verifier::external_body] fn after(t: &String, idx: usize, g: &str) -> (r: usize)
    requires 0 <= at(t@, idx as int) < gs(t@).len(), gs(t@)[at(t@, idx as int)] == g@,
    ensures at(t@, r as int) == at(t@, idx as int) + 1 { idx + g.len() }
#[verifier::external_body] fn split_text(t: &String, byte: usize) -> (r: (&str, &str))
    requires 0 <= at(t@, byte as int) <= gs(t@).len(),
    ensures gs(r.0@) == gs(t@).take(at(t@, byte as int)), gs(r.1@) == gs(t@).skip(at(t@, byte as int)) { t.split_at(byte) }
#[verifier::external_body] fn owned(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
/// a blank next to a grapheme boundary is a grapheme of its own
#[verifier::external_body] fn blank_after(t: &String) -> (r: String) ensures gs(r@) == gs(t@).push(seq![' ']), gw(seq![' ']) == 1 { format!("{} ", t) }
#[verifier::external_body] fn blank_before(t: &String) -> (r: String) ensures gs(r@) == seq![seq![' ']] + gs(t@), gw(seq![' ']) == 1 { format!(" {}", t) }
#[verifier::external_body] fn spaces(n: usize) -> (r: String) ensures gs(r@) == Seq::new(n as nat, |i: int| seq![' ']), gw(seq![' ']) == 1, r@ == Seq::new(n as nat, |i: int| ' ') { " ".repeat(n) }
#[verifier::external_body] fn text_empty(t: &String) -> (r: bool) ensures r == (t@.len() == 0), r == (gs(t@).len() == 0) { t.is_empty() }
#[verifier::external_body] fn append(t: &mut String, u: &str) ensures final(t)@ == old(t)@ + u@ { t.push_str(u) }
#[verifier::external_body] fn style_eq(a: Option<&Style>, b: Option<&Style>) -> (r: bool) ensures r == (unref(a) == unref(b)) { unimplemented!() }
pub open spec fn unref(a: Option<&Style>) -> Option<Style> { match a { Some(s) => Some(*s), None => None } }
fn cloned(a: Option<&Style>) -> (r: Option<Style>) ensures r == unref(a) { match a { Some(s) => Some(s.clone()), None => None } }
fn clone_style(a: &Option<Style>) -> (r: Option<Style>) ensures r == *a { match a { Some(s) => Some(s.clone()), None => None } }
fn as_opt(a: &Option<Style>) -> (r: Option<&Style>) ensures unref(r) == *a { match a { Some(s) => Some(s), None => None } }
#[verifier::external_body] fn nothing() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] fn empty_out(t: &mut String) ensures final(t)@ == Seq::<char>::empty() { t.clear() }
#[verifier::external_body] fn add_char(t: &mut String, c: char) ensures final(t)@ == old(t)@.push(c) { t.push(c) }
#[verifier::external_body] fn char_list(t: &str) -> (r: Vec<char>) ensures r@ == t@ { t.chars().collect() }
#[verifier::external_body] fn zeros(n: usize) -> (r: Vec<usize>) ensures r@ == Seq::new(n as nat, |i: int| 0usize) { vec![0; n] }
fn get_or_zero(v: &Vec<usize>, i: usize) -> (r: usize) ensures i < v@.len() ==> r == v@[i as int] { if i < v.len() { v[i] } else { 0 } }
/// the std iterator pipeline of `justify`
#[verifier::external_body] fn count_spaces(v: &Vec<Segment>) -> (r: usize) ensures chars(v@).len() <= usize::MAX ==> r == gaps(chars(v@)) { unimplemented!() }
#[verifier::external_body] fn meta_empty(m: &Meta) -> (r: bool) { unimplemented!() }
#[verifier::external_body] fn no_meta() -> (r: Meta) { unimplemented!() }
impl Segment { #[verifier::external_body] pub fn clone(&self) -> (r: Segment) ensures same(r, *self) { unimplemented!() } }
fn clone_segments(v: &Vec<Segment>) -> (r: Vec<Segment>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> same(#[trigger] r@[i], v@[i]), cat(r@) == cat(v@), chars(r@) == chars(v@), all_wf(v@) ==> all_wf(r@),
{
    let mut r: Vec<Segment> = Vec::new();
    for i in 0..v.len()
        invariant r@.len() == i, forall|j: int| 0 <= j < i ==> same(#[trigger] r@[j], v@[j]),
    { r.push(v[i].clone()); }
    proof { lemma_same(r@, v@); }
    r
}
impl Strip {
    // derived Clone clones each segment
    fn clone(&self) -> (r: Strip) ensures r.cells() == self.cells(), self.wf() ==> r.wf(), chars(r.segments@) == chars(self.segments@) { Strip { segments: clone_segments(&self.segments), cell_length: self.cell_length } }
}
fn extend_from(v: &mut Vec<Segment>, w: Vec<Segment>)
    ensures cat(final(v)@) == cat(old(v)@) + cat(w@), all_wf(old(v)@) && all_wf(w@) ==> all_wf(final(v)@),
{
    let ghost o = v@;
    let w2 = clone_segments(&w);
    let ghost w2v = w2@;
    let mut w2 = w2;
    v.append(&mut w2);
    proof { lemma_cat_add(o, w2v); }
}
fn one(s: Segment) -> (r: Vec<Segment>) ensures r@ == seq![s] { let mut v = Vec::new(); v.push(s); proof { assert(v@ =~= seq![s]); } v }
fn sum_lengths(v: &Vec<Segment>) -> (r: usize)
    requires all_wf(v@), cat(v@).len() <= usize::MAX,
    ensures r == cat(v@).len(),
{
    let mut t = 0usize;
    for i in 0..v.len()
        invariant t == cat(v@.take(i as int)).len(), all_wf(v@), cat(v@).len() <= usize::MAX,
    {
        proof { lemma_cat_take(v@, i as int); lemma_cat_prefix(v@, i + 1); }
        t += v[i].cell_length;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    t
}
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn cmp_usize(a: usize, b: usize) -> (r: std::cmp::Ordering) ensures r == (if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
{ if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }

// ---------------------------------------------------------------- lemmas
proof fn lemma_same(a: Seq<Segment>, b: Seq<Segment>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> same(#[trigger] a[i], b[i]),
    ensures cat(a) == cat(b), chars(a) == chars(b), all_wf(b) ==> all_wf(a), decreases a.len(),
{
    if a.len() > 0 {
        lemma_same(a.drop_last(), b.drop_last());
        assert(same(a.last(), b.last()));
        assert(seg_chars(a.last()) =~= seg_chars(b.last()));
    }
    if all_wf(b) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).wf() by { assert(same(a[i], b[i])); assert(b[i].wf()); } }
}
proof fn lemma_cat_add(a: Seq<Segment>, b: Seq<Segment>) ensures cat(a + b) == cat(a) + cat(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(cat(a) + cat(b) =~= cat(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_cat_add(a, b.drop_last()); assert(cat(a) + (cat(b.drop_last()) + b.last().cells()) =~= cat(a) + cat(b.drop_last()) + b.last().cells()); }
}
proof fn lemma_cat_one(s: Segment) ensures cat(seq![s]) == s.cells() { assert(seq![s].drop_last() =~= Seq::<Segment>::empty()); assert(cat(seq![s].drop_last()) =~= Seq::<Cv>::empty()); assert(Seq::<Cv>::empty() + s.cells() =~= s.cells()); }
proof fn lemma_cat_push(a: Seq<Segment>, s: Segment) ensures cat(a.push(s)) == cat(a) + s.cells() { assert(a.push(s).drop_last() =~= a); }
proof fn lemma_cat_take(a: Seq<Segment>, i: int) requires 0 <= i < a.len() ensures cat(a.take(i + 1)) == cat(a.take(i)) + a[i].cells() { assert(a.take(i + 1).drop_last() =~= a.take(i)); }
proof fn lemma_cat_prefix(a: Seq<Segment>, i: int) requires 0 <= i <= a.len() ensures cat(a) == cat(a.take(i)) + cat(a.skip(i)), cat(a.take(i)).len() <= cat(a).len() { assert(a =~= a.take(i) + a.skip(i)); lemma_cat_add(a.take(i), a.skip(i)); }
proof fn lemma_style_width(g: Seq<Seq<char>>, a: Option<Style>, b: Option<Style>) ensures cells_of(g, a).len() == cells_of(g, b).len() decreases g.len() { if g.len() > 0 { lemma_style_width(g.drop_last(), a, b); } }
proof fn lemma_cells_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>, st: Option<Style>) ensures cells_of(a + b, st) == cells_of(a, st) + cells_of(b, st) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(cells_of(a, st) + cells_of(b, st) =~= cells_of(a, st)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_cells_add(a, b.drop_last(), st); assert(cells_of(a, st) + (cells_of(b.drop_last(), st) + grapheme_cells(b.last(), st)) =~= cells_of(a, st) + cells_of(b.drop_last(), st) + grapheme_cells(b.last(), st)); }
}
proof fn lemma_pairs_add(a: Seq<Cv>, b: Seq<Cv>) requires pairs(a), pairs(b) ensures pairs(a + b) {
    let c = a + b;
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] pair_at(c, i) by {
        if i < a.len() { assert(pair_at(a, i)); } else { assert(pair_at(b, i - a.len())); }
    }
}
proof fn lemma_cells_pairs(g: Seq<Seq<char>>, st: Option<Style>) requires widths_ok(g) ensures pairs(cells_of(g, st)) decreases g.len() {
    if g.len() > 0 {
        let h = g.drop_last();
        assert forall|i: int| 0 <= i < h.len() implies 1 <= gw(#[trigger] h[i]) <= 2 by { assert(h[i] == g[i]); }
        lemma_cells_pairs(h, st);
        assert(1 <= gw(g[g.len() - 1]) <= 2);
        assert(pairs(grapheme_cells(g.last(), st)));
        lemma_pairs_add(cells_of(h, st), grapheme_cells(g.last(), st));
    }
}
proof fn lemma_seg_pairs(s: Segment) ensures pairs(s.cells()) { axiom_widths(s.text@); lemma_cells_pairs(gs(s.text@), s.style); }
proof fn lemma_cat_pairs(s: Seq<Segment>) ensures pairs(cat(s)) decreases s.len() {
    if s.len() > 0 { lemma_cat_pairs(s.drop_last()); lemma_seg_pairs(s.last()); lemma_pairs_add(cat(s.drop_last()), s.last().cells()); }
}
/// the cells before and from grapheme k on
proof fn lemma_cells_at(g: Seq<Seq<char>>, k: int, st: Option<Style>)
    requires widths_ok(g), 0 <= k <= g.len(),
    ensures cells_of(g, st) == cells_of(g.take(k), st) + cells_of(g.skip(k), st),
        k < g.len() ==> cells_of(g.take(k + 1), st) == cells_of(g.take(k), st) + grapheme_cells(g[k], st),
        k < g.len() ==> cells_of(g.take(k + 1), st).len() <= cells_of(g, st).len(),
        k < g.len() ==> cells_of(g, st)[cells_of(g.take(k), st).len() as int].part == 0,
        k < g.len() && gw(g[k]) == 2 ==> cells_of(g, st)[cells_of(g.take(k), st).len() as int + 1].part == 1,
{
    assert(g =~= g.take(k) + g.skip(k)); lemma_cells_add(g.take(k), g.skip(k), st);
    if k < g.len() {
        assert(1 <= gw(g[k]) <= 2);
        assert(g.take(k + 1).drop_last() =~= g.take(k));
        assert(g =~= g.take(k + 1) + g.skip(k + 1)); lemma_cells_add(g.take(k + 1), g.skip(k + 1), st);
    }
}
/// where a cut at a cell falls when graphemes are kept whole
pub open spec fn whole_cut(c: Seq<Cv>, cut: int) -> int { if cut >= c.len() { c.len() as int } else if c[cut].part == 1 { cut + 1 } else { cut } }

// ---------------------------------------------------------------- functions under contract: segments
//@ extract crates/textual/src/strip.rs fn build_segment
//@ ret r
//@ sub SIG:HashMap<String, String> ==> Meta
//@ sub Segment::styled\(text, ==> Segment::styled(owned(text),
//@ sub Segment::new\(text\) ==> Segment::new(owned(text))
//@ sub !meta\.is_empty\(\) ==> !meta_empty(meta)
//@ contract
    ensures r.wf(), r.text@ == text@, r.style == style,
//@ end

impl Segment {
//@ extract crates/textual/src/segment.rs fn Segment::new
//@ ret r
//@ sub SIG:<S: Into<String>> ==> 
//@ sub SIG:text: S ==> text: String
//@ sub let text = text\.into\(\); ==> 
//@ sub display_width\(&text\) ==> display_width(text.as_str())
//@ sub HashMap::new\(\) ==> no_meta()
//@ contract
    ensures r.wf(), r.text@ == text@, r.style == None::<Style>,
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::styled
//@ ret r
//@ sub SIG:<S: Into<String>> ==> 
//@ sub SIG:text: S ==> text: String
//@ sub let text = text\.into\(\); ==> 
//@ sub display_width\(&text\) ==> display_width(text.as_str())
//@ sub HashMap::new\(\) ==> no_meta()
//@ contract
    ensures r.wf(), r.text@ == text@, r.style == Some(style),
//@ start
    proof { lemma_style_width(gs(text@), None, Some(style)); }
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::blank
//@ ret r
//@ sub " "\.repeat\(width\) ==> spaces(width)
//@ sub HashMap::new\(\) ==> no_meta()
//@ contract
    ensures r.wf(), r.cells() == blanks(width as int, style),
//@ start
    proof { lemma_blanks(width as nat, style); }
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::text
//@ ret r
//@ sub &self\.text ==> self.text.as_str()
//@ contract
    ensures r@ == self.text@,
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::style
//@ ret r
//@ sub self\.style\.as_ref\(\) ==> as_opt(&self.style)
//@ contract
    ensures unref(r) == self.style,
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::cell_length
//@ ret r
//@ contract
    ensures r == self.cell_length,
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::is_empty
//@ ret r
//@ sub self\.text\.is_empty\(\) ==> text_empty(&self.text)
//@ contract
    ensures r == (self.text@.len() == 0), r ==> self.cells().len() == 0,
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::with_meta
//@ ret r
//@ sub SIG:HashMap<String, String> ==> Meta
//@ sub SIG:mut self ==> self
//@ sub \bself\b ==> this
//@ contract
    ensures r.text@ == self.text@, r.cell_length == self.cell_length, r.style == self.style, r.meta == meta,
//@ start
    let mut this = self;
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::meta
//@ ret r
//@ sub SIG:HashMap<String, String> ==> Meta
//@ contract
    ensures *r == self.meta,
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::split_at
//@ ret r
//@ sub self\.style\.clone\(\) ==> clone_style(&self.style)
//@ sub for \(idx, grapheme\) in grapheme_indices\(&self\.text\) \{ ==> let list = grapheme_list(&self.text); for gk in 0..list.len() { let (idx, grapheme) = list[gk];
//@ sub display_width\(grapheme\) ==> grapheme_width(grapheme)
//@ sub idx \+ grapheme\.len\(\) ==> after(&self.text, idx, grapheme)
//@ sub self\.text\.split_at\(byte_pos\) ==> split_text(&self.text, byte_pos)
//@ sub (\w+_text)\.to_string\(\) ==> owned(\1)
//@ sub let mut cell_pos = 0; ==> let mut cell_pos: usize = 0;
//@ nloops 1
//@ contract
    requires self.wf(),
    ensures r.0.wf(), r.1.wf(), r.0.style == self.style, r.1.style == self.style, r.0.meta == self.meta, r.1.meta == self.meta,
        r.0.cells() == self.cells().take(whole_cut(self.cells(), cut as int)), r.1.cells() == self.cells().skip(whole_cut(self.cells(), cut as int)),
//@ start
    let ghost g = gs(self.text@); let ghost st = self.style; let ghost c = self.cells();
    proof { axiom_empty(); axiom_widths(self.text@); lemma_seg_pairs(*self); if c.len() > 0 { assert(pair_at(c, 0)); } assert(g.take(g.len() as int) =~= g); assert(c.take(0) =~= Seq::<Cv>::empty()); assert(c.skip(0) =~= c); assert(c.take(c.len() as int) =~= c); assert(c.skip(c.len() as int) =~= Seq::<Cv>::empty()); assert(g.take(0) =~= Seq::<Seq<char>>::empty()); }
//@ loop 1
    invariant_except_break byte_pos == 0 || gk > 0, at(self.text@, byte_pos as int) == gk, cell_pos == cells_of(g.take(gk as int), st).len(), gk > 0 ==> cells_of(g.take(gk - 1), st).len() < cut,
    invariant self.wf(), g == gs(self.text@), st == self.style, c == cells_of(g, st), widths_ok(g), g.take(g.len() as int) == g, 0 < cut < c.len(), list@.len() == g.len(), at(self.text@, 0) == 0,
        forall|i: int| #![trigger list@[i]] 0 <= i < list@.len() ==> list@[i].1@ == g[i] && at(self.text@, list@[i].0 as int) == i,
    ensures exists|k: int| 0 < k <= g.len() && at(self.text@, byte_pos as int) == k && cell_pos == cells_of(#[trigger] g.take(k), st).len() && cells_of(g.take(k - 1), st).len() < cut <= cell_pos,
//@ loop_start 1
    proof { lemma_cells_at(g, gk as int, st); assert(1 <= gw(g[gk as int]) <= 2); let _ = list@[gk as int]; if cell_pos >= cut { assert(gk > 0) by { if gk == 0 { assert(cell_pos == 0); } }
        assert(0 < gk as int <= g.len() && at(self.text@, list@[gk as int].0 as int) == gk as int && cell_pos == cells_of(g.take(gk as int), st).len() && cells_of(g.take(gk - 1), st).len() < cut <= cell_pos); } }
//@ after_loop 1
    proof {
        assert(g.take(g.len() as int) =~= g);
        let k = choose|k: int| 0 < k <= g.len() && at(self.text@, byte_pos as int) == k && cell_pos == cells_of(#[trigger] g.take(k), st).len() && cells_of(g.take(k - 1), st).len() < cut <= cell_pos;
        lemma_cells_at(g, k - 1, st); lemma_cells_at(g, k, st);
        assert(1 <= gw(g[k - 1]) <= 2);
        assert(cell_pos == whole_cut(c, cut as int));
        assert(c.take(cell_pos as int) =~= cells_of(g.take(k), st));
        assert(c.skip(cell_pos as int) =~= cells_of(g.skip(k), st));
    }
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::split_cells
//@ ret r
//@ sub format!\("\{\} ", left\.text\) ==> blank_after(&left.text)
//@ sub format!\(" \{\}", right\.text\) ==> blank_before(&right.text)
//@ nloops 0
//@ contract
    requires self.wf(),
    ensures r.0.wf(), r.1.wf(), r.0.style == self.style, r.1.style == self.style, r.0.meta == self.meta, r.1.meta == self.meta,
        ({ let n = self.cells().len() as int; let k = if cut < n { cut as int } else { n }; r.0.cells() == tidy(self.cells(), 0, k) && r.1.cells() == tidy(self.cells(), k, n) }),
//@ start
    proof { lemma_split_cells(*self, cut as int); }
//@ end
}
proof fn lemma_blanks(n: nat, st: Option<Style>)
    ensures gw(seq![' ']) == 1 ==> cells_of(Seq::new(n, |i: int| seq![' ']), st) == blanks(n as int, st), decreases n,
{
    let g = Seq::new(n, |i: int| seq![' ']);
    if n > 0 && gw(seq![' ']) == 1 {
        lemma_blanks((n - 1) as nat, st);
        assert(g.drop_last() =~= Seq::new((n - 1) as nat, |i: int| seq![' ']));
        assert(grapheme_cells(g.last(), st) =~= seq![blank_cell(st)]);
        assert(blanks(n as int, st) =~= blanks(n - 1, st) + seq![blank_cell(st)]);
    } else { assert(n == 0 ==> blanks(0, st) =~= Seq::<Cv>::empty()); }
}
proof fn lemma_split_cells(s: Segment, cut: int)
    requires s.wf(), cut >= 0,
    ensures
        ({ let c = s.cells(); let n = c.len() as int; let k = if cut < n { cut } else { n };
           &&& pairs(c)
           &&& whole_cut(c, cut) <= cut ==> c.take(whole_cut(c, cut)) == tidy(c, 0, k) && c.skip(whole_cut(c, cut)) == tidy(c, k, n)
           &&& whole_cut(c, cut) > cut ==> 0 < cut < n && whole_cut(c, cut) == cut + 1 && whole_cut(c, cut - 1) == cut - 1
               && c.take(cut - 1) + seq![blank_cell(s.style)] == tidy(c, 0, k) && seq![blank_cell(s.style)] + c.skip(cut + 1) == tidy(c, k, n) }),
        gw(seq![' ']) == 1 ==> grapheme_cells(seq![' '], s.style) == seq![blank_cell(s.style)],
        forall|g: Seq<Seq<char>>| gw(seq![' ']) == 1 ==> #[trigger] cells_of(g.push(seq![' ']), s.style) == cells_of(g, s.style) + seq![blank_cell(s.style)],
        forall|g: Seq<Seq<char>>| gw(seq![' ']) == 1 ==> #[trigger] cells_of(seq![seq![' ']] + g, s.style) == seq![blank_cell(s.style)] + cells_of(g, s.style),
{
    let c = s.cells(); let n = c.len() as int; let k = if cut < n { cut } else { n };
    lemma_seg_pairs(s);
    lemma_cells_style(gs(s.text@), s.style);
    if k > 0 { assert(pair_at(c, k - 1)); } if k < n { assert(pair_at(c, k)); } if n > 0 { assert(pair_at(c, n - 1)); assert(pair_at(c, 0)); }
    if whole_cut(c, cut) <= cut {
        assert(c.take(k) =~= tidy(c, 0, k));
        assert(c.skip(k) =~= tidy(c, k, n));
    } else {
        assert(c[cut].part == 1); assert(c[cut - 1].part == 0);
        if cut - 1 > 0 { assert(pair_at(c, cut - 2)); }
        assert(c.take(cut - 1) + seq![blank_cell(s.style)] =~= tidy(c, 0, k));
        assert(seq![blank_cell(s.style)] + c.skip(cut + 1) =~= tidy(c, k, n)) by { if cut + 1 < n { assert(pair_at(c, cut + 1)); } }
    }
    if gw(seq![' ']) == 1 {
        assert(grapheme_cells(seq![' '], s.style) =~= seq![blank_cell(s.style)]);
        assert forall|g: Seq<Seq<char>>| #[trigger] cells_of(g.push(seq![' ']), s.style) == cells_of(g, s.style) + seq![blank_cell(s.style)] by { assert(g.push(seq![' ']).drop_last() =~= g); }
        assert forall|g: Seq<Seq<char>>| #[trigger] cells_of(seq![seq![' ']] + g, s.style) == seq![blank_cell(s.style)] + cells_of(g, s.style) by {
            lemma_cells_add(seq![seq![' ']], g, s.style);
            let o = seq![seq![' ']];
            assert(o.drop_last() =~= Seq::<Seq<char>>::empty());
            assert(cells_of(o.drop_last(), s.style) =~= Seq::<Cv>::empty());
            assert(cells_of(o, s.style) =~= seq![blank_cell(s.style)]);
        }
    }
}
proof fn lemma_cells_style(g: Seq<Seq<char>>, st: Option<Style>) ensures forall|i: int| 0 <= i < cells_of(g, st).len() ==> (#[trigger] cells_of(g, st)[i]).style == st decreases g.len() { if g.len() > 0 { lemma_cells_style(g.drop_last(), st); } }

// ---------------------------------------------------------------- functions under contract: lines
impl Strip {
//@ extract crates/textual/src/strip.rs fn Strip::new
//@ ret r
//@ contract
    ensures r.wf(), r.cells() == Seq::<Cv>::empty(),
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::from_segments
//@ ret r
//@ sub segments\.iter\(\)\.map\(\|s\| s\.cell_length\(\)\)\.sum\(\) ==> sum_lengths(&segments)
//@ sub SegmentVec::from_vec\(segments\) ==> segments
//@ contract
    requires all_wf(segments@), cat(segments@).len() <= usize::MAX,
    ensures r.wf(), r.cells() == cat(segments@), r.segments@ == segments@,
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::from_smallvec
//@ ret r
//@ sub segments\.iter\(\)\.map\(\|s\| s\.cell_length\(\)\)\.sum\(\) ==> sum_lengths(&segments)
//@ contract
    requires all_wf(segments@), cat(segments@).len() <= usize::MAX,
    ensures r.wf(), r.cells() == cat(segments@), r.segments@ == segments@,
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::from_segment
//@ ret r
//@ sub smallvec!\[segment\] ==> one(segment)
//@ contract
    requires segment.wf(),
    ensures r.wf(), r.cells() == segment.cells(),
//@ start
    proof { lemma_cat_one(segment); }
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::blank
//@ ret r
//@ contract
    ensures r.wf(), r.cells() == blanks(width as int, style),
//@ start
    proof { assert(blanks(0, style) =~= Seq::<Cv>::empty()); }
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::crop
//@ ret r
//@ sub end\.min\(self\.cell_length\) ==> min_usize(end, self.cell_length)
//@ sub \(end - current_pos\)\.min\(seg_len\) ==> min_usize(end - current_pos, seg_len)
//@ sub let mut current_pos = 0; ==> let mut current_pos: usize = 0;
//@ sub for segment in &self\.segments \{ ==> for sk in 0..self.segments.len() { let segment = &self.segments[sk];
//@ nloops 1
//@ contract
    requires self.wf(),
    ensures r.wf(), ({ let n = self.cells().len() as int; let b = if end < n { end as int } else { n }; r.cells() == if start < b { tidy(self.cells(), start as int, b) } else { Seq::<Cv>::empty() } }),
//@ start
    let ghost c = self.cells(); let ghost segs = self.segments@;
    proof { assert(segs.take(segs.len() as int) =~= segs); }
//@ loop 1
    invariant_except_break current_pos == cat(segs.take(sk as int)).len(), current_pos <= start ==> cat(result_segments@) == Seq::<Cv>::empty(),
        current_pos > start ==> cat(result_segments@) == tidy(c, start as int, if current_pos < end { current_pos as int } else { end as int }),
    invariant self.wf(), c == self.cells(), segs == self.segments@, start < end <= c.len(), all_wf(result_segments@), segs.take(segs.len() as int) == segs,
    ensures cat(result_segments@) == tidy(c, start as int, end as int),
//@ loop_start 1
    let ghost before = result_segments@;
    proof {
        lemma_cat_take(segs, sk as int); lemma_cat_prefix(segs, sk as int); lemma_cat_prefix(segs, sk + 1);
        lemma_cat_pairs(segs.take(sk as int)); lemma_seg_pairs(segs[sk as int]); lemma_cat_pairs(segs);
        let s = segs[sk as int].cells(); let cp = current_pos as int; let n = s.len() as int;
        assert(segs[sk as int].wf());
        assert(c =~= cat(segs.take(sk as int)) + s + cat(segs.skip(sk + 1)));
        if cp + n > start && cp < end {
            let ls = if start > cp { start - cp } else { 0 }; let le = if end - cp < n { end - cp } else { n };
            lemma_crop_step(c, s, cp, start as int, end as int, cat(segs.take(sk as int)));
            if n > 0 { lemma_tidy_twice(s, ls, le); }
            assert(tidy(s, 0, n) =~= s) by { if n > 0 { assert(pair_at(s, 0)); assert(pair_at(s, n - 1)); } }
        }
        lemma_pushes();
        assert(cat(before) + Seq::<Cv>::empty() =~= cat(before));
    }
//@ loop_end 1
    proof {
        assert(segs.take(sk + 1) =~= segs.take(sk as int).push(segs[sk as int]));
    }
//@ after_loop 1
    proof { assert(segs.take(segs.len() as int) =~= segs); }
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::adjust_cell_length
//@ ret r
//@ sub match self\.cell_length\.cmp\(&length\) ==> match cmp_usize(self.cell_length, length)
//@ sub self\.segments\.clone\(\) ==> clone_segments(&self.segments)
//@ contract
    requires self.wf(),
    ensures r.wf(), r.cells().len() == length, r.cells() == if self.cells().len() >= length { tidy(self.cells(), 0, length as int) } else { self.cells() + blanks(length - self.cells().len(), pad_style) },
//@ start
    proof { lemma_whole(self.segments@); lemma_pushes(); assert(tidy(self.cells(), 0, 0) =~= Seq::<Cv>::empty()); }
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::text_align
//@ ret r
//@ sub self\.segments\.clone\(\) ==> clone_segments(&self.segments)
//@ sub smallvec!\[padding\] ==> one(padding)
//@ sub segments\.extend\(self\.segments\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, clone_segments(&self.segments));
//@ sub pad_style\.clone\(\) ==> clone_style(&pad_style)
//@ contract
    requires self.wf(),
    ensures r.wf(), r.cells().len() == width, ({ let gap = width - self.cells().len();
        r.cells() == if gap <= 0 { tidy(self.cells(), 0, width as int) } else { match align {
            AlignHorizontal::Left => self.cells() + blanks(gap, pad_style),
            AlignHorizontal::Right => blanks(gap, pad_style) + self.cells(),
            AlignHorizontal::Center => blanks(gap / 2, pad_style) + self.cells() + blanks(gap - gap / 2, pad_style),
        } } }),
//@ start
    proof { lemma_whole(self.segments@); lemma_pushes(); assert(tidy(self.cells(), 0, 0) =~= Seq::<Cv>::empty());
        assert(forall|s: Segment| #[trigger] cat(seq![s]) == s.cells()) by { assert forall|s: Segment| #[trigger] cat(seq![s]) == s.cells() by { lemma_cat_one(s); } }
        assert(blanks(0, pad_style) =~= Seq::<Cv>::empty());
        let gap = width - self.cells().len(); let l = blanks(gap / 2, pad_style);
        assert(Seq::<Cv>::empty() + self.cells() =~= self.cells()); assert(Seq::<Cv>::empty() + l =~= l);
        assert(gap > 0 ==> gap - gap / 2 > 0); }
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::justify
//@ ret r
//@ sub self\s*\.segments\s*\.iter\(\)\s*\.map\(\|seg\| seg\.text\(\)\.chars\(\)\.filter\(\|ch\| \*ch == ' '\)\.count\(\)\)\s*\.sum\(\) ==> count_spaces(&self.segments)
//@ sub vec!\[0usize; gap_count\] ==> zeros(gap_count)
//@ sub extra_per_gap\[idx\] \+= 1; ==> let was = extra_per_gap[idx]; extra_per_gap.set(idx, was + 1);
//@ sub for seg in &self\.segments \{ ==> for sk in 0..self.segments.len() { let seg = &self.segments[sk];
//@ sub for ch in seg\.text\(\)\.chars\(\) \{ ==> let list = char_list(seg.text()); for ck in 0..list.len() { let ch = list[ck];
//@ sub seg\.style\(\)\.cloned\(\) ==> cloned(seg.style())
//@ sub String::new\(\) ==> nothing()
//@ sub buffer\.is_empty\(\) ==> text_empty(&buffer)
//@ sub buffer\.clear\(\) ==> empty_out(&mut buffer)
//@ sub buffer\.push\(ch\) ==> add_char(&mut buffer, ch)
//@ sub (?<!pad_)style\.clone\(\) ==> clone_style(&style)
//@ sub &buffer, ==> buffer.as_str(),
//@ sub &spaces, ==> spaces.as_str(),
//@ sub extra_per_gap\.get\(gap_index\)\.copied\(\)\.unwrap_or\(0\) ==> get_or_zero(&extra_per_gap, gap_index)
//@ sub " "\.repeat\(total\) ==> spaces(total)
//@ sub let mut gap_index = 0; ==> let mut gap_index: usize = 0;
//@ nloops 3
//@ contract
    requires self.wf(), 2 * (chars(self.segments@).len() + width) + 2 <= usize::MAX,
    ensures r.wf(), ({ let gap = width - self.cells().len(); let t = chars(self.segments@);
        if gap <= 0 { r.cells() == tidy(self.cells(), 0, width as int) }
        else if gaps(t) == 0 { r.cells() == self.cells() + blanks(gap, pad_style) }
        else { chars(r.segments@) == widened(t, gap, gaps(t)) && chars(r.segments@).len() == t.len() + gap } }),
//@ start
    let ghost segs = self.segments@; let ghost t = chars(segs); let ghost n = gaps(t); let ghost more = width - self.cells().len();
    proof { lemma_gaps_bound(t); if more > 0 && n > 0 { lemma_widened_len(t, more, n); } }
//@ loop 1
    invariant extra == more, gap_count == n, n > 0, n <= usize::MAX, extra_per_gap@.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] extra_per_gap@[j] == share(i as int, n, j),
//@ loop_start 1
    proof { let idx = n - 1 - i as int % n; assert(0 <= i as int % n < n); lemma_share(i as int, n); assert(share(i as int, n, idx) <= i) by { lemma_share_bound(i as int, n, idx); } }
//@ before_loop 2
    proof { assert(segs.take(0) =~= Seq::<Segment>::empty()); assert(chars(segs.take(0)) =~= Seq::<(char, Option<Style>)>::empty()); }
//@ loop 2
    invariant self.wf(), segs == self.segments@, t == chars(segs), n == gaps(t), 0 < n <= t.len(), more > 0, more <= width, 2 * (t.len() + width) + 2 <= usize::MAX, extra_per_gap@.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] extra_per_gap@[j] == share(more, n, j),
        all_wf(segments@), gap_index == gaps(chars(segs.take(sk as int))), chars(segments@) == widened(chars(segs.take(sk as int)), more, n),
//@ loop_start 2
    let ghost done = chars(segs.take(sk as int)); let ghost st = segs[sk as int].style; let ghost word = segs[sk as int].text@;
    proof { assert(segs.take(sk + 1).drop_last() =~= segs.take(sk as int)); assert(segs.take(sk + 1) =~= segs.take(sk as int).push(segs[sk as int]));
        assert(segs =~= segs.take(sk + 1) + segs.skip(sk + 1)); lemma_chars_add(segs.take(sk + 1), segs.skip(sk + 1)); lemma_gaps_add(chars(segs.take(sk + 1)), chars(segs.skip(sk + 1)));
        assert(seg_chars(segs[sk as int]) =~= text_chars(word, st)); assert(chars(segs.take(sk + 1)) == done + text_chars(word, st));
        lemma_gaps_bound(chars(segs.skip(sk + 1)));
        assert(done + text_chars(word.take(0), st) =~= done); assert(chars(segments@) + text_chars(Seq::empty(), st) =~= chars(segments@)); }
//@ loop 3
    invariant self.wf(), segs == self.segments@, t == chars(segs), n == gaps(t), 0 < n <= t.len(), more > 0, more <= width, 2 * (t.len() + width) + 2 <= usize::MAX, extra_per_gap@.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] extra_per_gap@[j] == share(more, n, j),
        list@ == word, style == st, all_wf(segments@), gaps(done + text_chars(word, st)) <= n,
        gap_index == gaps(done + text_chars(word.take(ck as int), st)), chars(segments@) + text_chars(buffer@, st) == widened(done + text_chars(word.take(ck as int), st), more, n),
//@ loop_start 3
    let ghost p = done + text_chars(word.take(ck as int), st); let ghost b0 = buffer@; let ghost v0 = segments@;
    proof {
        let q = done + text_chars(word.take(ck + 1), st);
        assert(q =~= p.push((word[ck as int], st))); assert(q.drop_last() =~= p);
        assert(done + text_chars(word, st) =~= q + text_chars(word.skip(ck + 1), st)); lemma_gaps_add(q, text_chars(word.skip(ck + 1), st)); lemma_gaps_bound(text_chars(word.skip(ck + 1), st)); lemma_gaps_bound(p);
        if word[ck as int] == ' ' {
            lemma_share_bound(more, n, gaps(p));
            lemma_push_chars(v0, b0, st);
            let k = 1 + share(more, n, gaps(p)); let sp = Seq::new(k as nat, |i: int| ' ');
            assert forall|v: Seq<Segment>, s: Segment| s.text@ == sp && s.style == st && chars(v) == chars(v0) + text_chars(b0, st) implies chars(#[trigger] v.push(s)) == widened(q, more, n) by {
                lemma_push_chars(v, sp, st); assert(text_chars(sp, st) =~= Seq::new(k as nat, |i: int| (' ', st)));
            }
            assert(b0.len() == 0 ==> chars(v0) + text_chars(b0, st) =~= chars(v0));
        } else { assert(text_chars(b0.push(word[ck as int]), st) =~= text_chars(b0, st).push((word[ck as int], st))); assert(chars(v0) + text_chars(b0.push(word[ck as int]), st) =~= (chars(v0) + text_chars(b0, st)).push((word[ck as int], st))); }
    }
//@ loop_end 3
    proof { if word[ck as int] == ' ' { assert(buffer@.len() == 0); assert(chars(segments@) + text_chars(buffer@, st) =~= chars(segments@)); } }
//@ after_loop 3
    proof { assert(word.take(word.len() as int) =~= word); lemma_push_chars(segments@, buffer@, st); assert(buffer@.len() == 0 ==> chars(segments@) + text_chars(buffer@, st) =~= chars(segments@)); }
//@ after_loop 2
    proof { assert(segs.take(segs.len() as int) =~= segs); lemma_len(segments@); }
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::join
//@ ret r
//@ sub SIG:impl IntoIterator<Item = Strip> ==> Vec<Strip>
//@ sub for strip in strips \{ ==> for jk in 0..strips.len() { let strip = strips[jk].clone();
//@ sub segments\.extend\(strip\.segments\); ==> extend_from(&mut segments, strip.segments);
//@ nloops 1
//@ contract
    requires forall|i: int| 0 <= i < strips@.len() ==> (#[trigger] strips@[i]).wf(), joined(strips@).len() <= usize::MAX,
    ensures r.wf(), r.cells() == joined(strips@),
//@ loop 1
    invariant all_wf(segments@), cat(segments@) == joined(strips@.take(jk as int)), forall|i: int| 0 <= i < strips@.len() ==> (#[trigger] strips@[i]).wf(),
//@ loop_end 1
    proof { assert(strips@.take(jk + 1).drop_last() =~= strips@.take(jk as int)); }
//@ after_loop 1
    proof { assert(strips@.take(strips@.len() as int) =~= strips@); }
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::divide
//@ ret r
//@ sub vec!\[self\.clone\(\)\] ==> one_strip(self.clone())
//@ sub Vec::with_capacity\(cuts\.len\(\) \+ 1\) ==> Vec::new()
//@ sub let mut last = 0; ==> let mut last: usize = 0;
//@ sub for &cut in cuts \{ ==> for ck in 0..cuts.len() { let cut = cuts[ck];
//@ sub let mut result = ==> let mut result: Vec<Strip> =
//@ nloops 1
//@ contract
    requires self.wf(),
    ensures cuts@.len() == 0 ==> r@.len() == 1 && r@[0].wf() && r@[0].cells() == self.cells(),
        cuts@.len() > 0 ==> pieces(r@, self.cells(), bounds(cuts@, self.cells().len() as int)),
//@ start
    let ghost c = self.cells();
//@ loop 1
    invariant self.wf(), c == self.cells(), last == cuts_to(cuts@, ck as int, c.len() as int).last(), last <= c.len(), pieces(result@, c, cuts_to(cuts@, ck as int, c.len() as int)), cuts_to(cuts@, ck as int, c.len() as int).len() > 0,
//@ end
//@ extract crates/textual/src/strip.rs fn Strip::simplify
//@ ret r
//@ sub for segment in &self\.segments \{ ==> for sk in 0..self.segments.len() { let segment = &self.segments[sk];
//@ sub segment\.text\(\)\.to_string\(\) ==> owned(segment.text())
//@ sub segment\.style\(\)\.cloned\(\) ==> cloned(segment.style())
//@ sub segment\.style\(\) == current_style\.as_ref\(\) ==> style_eq(segment.style(), as_opt(&current_style))
//@ sub current_text\.push_str\(segment\.text\(\)\) ==> append(&mut current_text, segment.text())
//@ sub current_text\.is_empty\(\) ==> text_empty(&current_text)
//@ nloops 1
//@ contract
    requires self.wf(), 2 * chars(self.segments@).len() <= usize::MAX,
    ensures r.wf(), chars(r.segments@) == chars(self.segments@),
//@ start
    let ghost segs = self.segments@;
//@ loop 1
    invariant self.wf(), segs == self.segments@, all_wf(result@), has_current == (sk > 0),
        chars(segs.take(sk as int)) == chars(result@) + text_chars(if has_current { current_text@ } else { Seq::empty() }, current_style), !has_current ==> result@.len() == 0,
//@ loop_start 1
    let ghost t0 = current_text@; let ghost s0 = current_style; let ghost before = result@;
    proof { assert(segs.take(sk + 1).drop_last() =~= segs.take(sk as int)); assert(segs.take(0) =~= Seq::<Segment>::empty());
        assert(seg_chars(segs[sk as int]) =~= text_chars(segs[sk as int].text@, segs[sk as int].style));
        if unref_eq(segs[sk as int].style, s0) { lemma_text_add(chars(before), t0, segs[sk as int].text@, s0); }
        assert(chars(Seq::<Segment>::empty()) + text_chars(Seq::empty(), s0) + text_chars(segs[sk as int].text@, segs[sk as int].style) =~= text_chars(segs[sk as int].text@, segs[sk as int].style));
        assert(chars(Seq::<Segment>::empty()) + text_chars(segs[sk as int].text@, segs[sk as int].style) =~= text_chars(segs[sk as int].text@, segs[sk as int].style));
        assert(t0.len() == 0 ==> chars(before) + text_chars(t0, s0) =~= chars(before));
        lemma_push_chars(before, t0, s0); }
//@ after_loop 1
    let ghost t1 = current_text@; let ghost s1 = current_style; let ghost before = result@;
    proof { assert(segs.take(segs.len() as int) =~= segs); lemma_push_chars(before, t1, s1); assert(t1.len() == 0 ==> chars(before) + text_chars(t1, s1) =~= chars(before));
        assert forall|v: Seq<Segment>| all_wf(v) implies (#[trigger] cat(v)).len() <= 2 * chars(v).len() by { lemma_len(v); } }
//@ end
}
/// the blanks of a text
pub open spec fn gaps(t: Seq<(char, Option<Style>)>) -> int decreases t.len() { if t.len() == 0 { 0 } else { gaps(t.drop_last()) + if t.last().0 == ' ' { 1int } else { 0 } } }
/// what each of n gaps gets of `more` blanks: the same, and one more for the last ones
pub open spec fn share(more: int, n: int, j: int) -> int { more / n + if n - 1 - j < more % n { 1int } else { 0 } }
/// the text with every gap widened by its share
pub open spec fn widened(t: Seq<(char, Option<Style>)>, more: int, n: int) -> Seq<(char, Option<Style>)> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let rest = t.drop_last();
        if t.last().0 == ' ' { widened(rest, more, n) + Seq::new((1 + share(more, n, gaps(rest))) as nat, |i: int| (' ', t.last().1)) } else { widened(rest, more, n).push(t.last()) }
    }
}
proof fn lemma_gaps_bound(t: Seq<(char, Option<Style>)>) ensures 0 <= gaps(t) <= t.len() decreases t.len() { if t.len() > 0 { lemma_gaps_bound(t.drop_last()); } }
proof fn lemma_gaps_add(a: Seq<(char, Option<Style>)>, b: Seq<(char, Option<Style>)>) ensures gaps(a + b) == gaps(a) + gaps(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_gaps_add(a, b.drop_last()); }
}
proof fn lemma_chars_add(a: Seq<Segment>, b: Seq<Segment>) ensures chars(a + b) == chars(a) + chars(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(chars(a) + chars(b) =~= chars(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_chars_add(a, b.drop_last()); assert(chars(a) + (chars(b.drop_last()) + seg_chars(b.last())) =~= chars(a) + chars(b.drop_last()) + seg_chars(b.last())); }
}
/// one blank more goes to the gap whose turn it is
proof fn lemma_share(i: int, n: int)
    requires i >= 0, n > 0,
    ensures forall|j: int| 0 <= j < n ==> #[trigger] share(i + 1, n, j) == share(i, n, j) + if j == n - 1 - i % n { 1int } else { 0 },
{
    let (q, r) = (i / n, i % n);
    assert(i == n * q + r && 0 <= r < n) by (nonlinear_arith) requires q == i / n, r == i % n, i >= 0, n > 0;
    if r + 1 < n {
        assert((i + 1) / n == q && (i + 1) % n == r + 1) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + 1, n, q, r + 1); }
    } else {
        assert((q + 1) * n == n * q + n) by (nonlinear_arith);
        assert((i + 1) / n == q + 1 && (i + 1) % n == 0) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + 1, n, q + 1, 0); }
    }
}
proof fn lemma_share_bound(i: int, n: int, j: int) requires i >= 0, n > 0, 0 <= j < n ensures 0 <= share(i, n, j) <= i {
    let (q, r) = (i / n, i % n);
    assert(i == n * q + r && 0 <= r < n && q >= 0) by (nonlinear_arith) requires q == i / n, r == i % n, i >= 0, n > 0;
    assert(q <= n * q) by (nonlinear_arith) requires q >= 0, n > 0;
    if n - 1 - j < r { assert(r >= 1); }
}
/// nothing is lost or added: the line grows by exactly what was missing
proof fn lemma_widened_len(t: Seq<(char, Option<Style>)>, more: int, n: int)
    requires more >= 0, n > 0, gaps(t) <= n,
    ensures widened(t, more, n).len() == t.len() + gaps(t) * (more / n) + (if gaps(t) > n - more % n { gaps(t) - (n - more % n) } else { 0 }),
        gaps(t) == n ==> widened(t, more, n).len() == t.len() + more,
    decreases t.len(),
{
    let (q, r) = (more / n, more % n);
    assert(more == n * q + r && 0 <= r < n && q >= 0) by (nonlinear_arith) requires q == more / n, r == more % n, more >= 0, n > 0;
    if t.len() > 0 {
        let rest = t.drop_last(); lemma_gaps_bound(rest); lemma_widened_len(rest, more, n);
        if t.last().0 == ' ' { let g = gaps(rest); assert((g + 1) * q == g * q + q) by (nonlinear_arith); lemma_share_bound(more, n, g); }
    }
}
pub open spec fn unref_eq(a: Option<Style>, b: Option<Style>) -> bool { a == b }
pub open spec fn text_chars(t: Seq<char>, st: Option<Style>) -> Seq<(char, Option<Style>)> { t.map_values(|c: char| (c, st)) }
proof fn lemma_text_add(p: Seq<(char, Option<Style>)>, a: Seq<char>, b: Seq<char>, st: Option<Style>)
    ensures p + text_chars(a, st) + text_chars(b, st) == p + text_chars(a + b, st) { assert(p + text_chars(a, st) + text_chars(b, st) =~= p + text_chars(a + b, st)); }
proof fn lemma_push_chars(v: Seq<Segment>, t: Seq<char>, st: Option<Style>)
    ensures forall|s: Segment| s.text@ == t && s.style == st ==> chars(#[trigger] v.push(s)) == chars(v) + text_chars(t, st),
{
    assert forall|s: Segment| s.text@ == t && s.style == st implies chars(#[trigger] v.push(s)) == chars(v) + text_chars(t, st) by { assert(v.push(s).drop_last() =~= v); assert(seg_chars(s) =~= text_chars(t, st)); }
}
proof fn lemma_len(v: Seq<Segment>) ensures cat(v).len() <= 2 * chars(v).len() decreases v.len() {
    if v.len() > 0 { lemma_len(v.drop_last()); axiom_widths(v.last().text@); lemma_cells_len(gs(v.last().text@), v.last().style); }
}
proof fn lemma_cells_len(g: Seq<Seq<char>>, st: Option<Style>) requires widths_ok(g) ensures cells_of(g, st).len() <= 2 * g.len() decreases g.len() {
    if g.len() > 0 { let h = g.drop_last(); assert forall|i: int| 0 <= i < h.len() implies 1 <= gw(#[trigger] h[i]) <= 2 by { assert(h[i] == g[i]); } lemma_cells_len(h, st); assert(1 <= gw(g[g.len() - 1]) <= 2); }
}
fn one_strip(s: Strip) -> (r: Vec<Strip>) ensures r@ == seq![s] { let mut v = Vec::new(); v.push(s); proof { assert(v@ =~= seq![s]); } v }
pub open spec fn joined(s: Seq<Strip>) -> Seq<Cv> decreases s.len() { if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last().cells() } }
/// the cut positions that count: increasing and inside the line, after the start
pub open spec fn cuts_to(cuts: Seq<usize>, n: int, len: int) -> Seq<int> decreases n {
    if n <= 0 { seq![0int] } else { let e = cuts_to(cuts, n - 1, len); if cuts[n - 1] > e.last() && cuts[n - 1] <= len { e.push(cuts[n - 1] as int) } else { e } }
}
pub open spec fn bounds(cuts: Seq<usize>, len: int) -> Seq<int> { let e = cuts_to(cuts, cuts.len() as int, len); if e.last() < len { e.push(len) } else { e } }
pub open spec fn pieces(r: Seq<Strip>, c: Seq<Cv>, at: Seq<int>) -> bool {
    r.len() == at.len() - 1 && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).wf() && r[i].cells() == tidy(c, at[i], at[i + 1])
}
proof fn lemma_whole(segs: Seq<Segment>) ensures tidy(cat(segs), 0, cat(segs).len() as int) == cat(segs) {
    lemma_cat_pairs(segs); let c = cat(segs);
    if c.len() > 0 { assert(pair_at(c, 0)); assert(pair_at(c, c.len() - 1)); }
    assert(tidy(c, 0, c.len() as int) =~= c);
}
proof fn lemma_pushes() ensures forall|a: Seq<Segment>, s: Segment| cat(#[trigger] a.push(s)) == cat(a) + s.cells() {
    assert forall|a: Seq<Segment>, s: Segment| cat(#[trigger] a.push(s)) == cat(a) + s.cells() by { lemma_cat_push(a, s); }
}
/// cutting off the end after cutting off the start
proof fn lemma_tidy_twice(s: Seq<Cv>, a: int, b: int)
    requires pairs(s), 0 <= a < b <= s.len(),
    ensures ({ let t = tidy(s, a, s.len() as int); tidy(t, 0, b - a) == tidy(s, a, b) }), tidy(s, a, s.len() as int).len() == s.len() - a,
{
    let n = s.len() as int; let t = tidy(s, a, n);
    assert(pair_at(s, n - 1)); assert(pair_at(s, a)); assert(pair_at(s, b - 1));
    if a + 1 < n { assert(pair_at(s, a + 1)); }
    assert(tidy(t, 0, b - a) =~= tidy(s, a, b));
}
/// one more segment of a crop
proof fn lemma_crop_step(c: Seq<Cv>, s: Seq<Cv>, cp: int, start: int, end: int, p: Seq<Cv>)
    requires pairs(c), pairs(s), pairs(p), 0 <= cp, cp + s.len() <= c.len(), p.len() == cp, forall|i: int| 0 <= i < cp ==> c[i] == p[i], forall|i: int| 0 <= i < s.len() ==> c[cp + i] == s[i], 0 <= start < end <= c.len(), cp + s.len() > start, cp < end,
    ensures ({ let n = s.len() as int; let ls = if start > cp { start - cp } else { 0 }; let le = if end - cp < n { end - cp } else { n };
        tidy(c, start, cp + le) == (if cp > start { tidy(c, start, cp) } else { Seq::<Cv>::empty() }) + tidy(s, ls, le) }),
{
    let n = s.len() as int; let ls = if start > cp { start - cp } else { 0 }; let le = if end - cp < n { end - cp } else { n };
    if n == 0 { assert(tidy(c, start, cp) + tidy(s, 0, 0) =~= tidy(c, start, cp)); return; }
    assert(pair_at(s, 0)); assert(pair_at(s, ls)); assert(pair_at(s, le - 1)); assert(pair_at(c, cp)); if cp > 0 { assert(pair_at(p, cp - 1)); assert(pair_at(c, cp - 1)); }
    assert(c[cp] == s[0]); assert(s[0].part == 0);
    assert(c[cp + ls] == s[ls]); assert(c[cp + le - 1] == s[le - 1]);
    if cp > 0 { assert(!(p[cp - 1].part == 0 && p[cp - 1].width == 2)); }
    let l = tidy(c, start, cp + le);
    let r = (if cp > start { tidy(c, start, cp) } else { Seq::<Cv>::empty() }) + tidy(s, ls, le);
    assert(l.len() == r.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        if start + i >= cp { assert(c[start + i] == s[start + i - cp]); }
    }
    assert(l =~= r);
}
}
