use vstd::prelude::*;

verus! {
global size_of usize == 8;
// ---------------------------------------------------------------- the code's types
pub
//@ extract crates/tcss/src/types/text.rs enum AlignHorizontal
//@ end
pub
//@ extract crates/tcss/src/types/border.rs enum BorderKind
//@ end
impl Clone for BorderKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for BorderKind {}
impl Clone for AlignHorizontal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AlignHorizontal {}
/// colours, attributes and text are only handed on by the functions below; what their cells are is C04's contract
#[verifier::external_body] pub struct Style { x: u8 }
#[verifier::external_body] pub struct Segment { x: u8 }
#[verifier::external_body] pub struct Strip { x: u8 }
#[verifier::external_body] pub struct Rest { x: u8 }
pub struct BorderEdge { pub kind: BorderKind, pub rest: Rest }
pub struct Border { pub top: BorderEdge, pub right: BorderEdge, pub bottom: BorderEdge, pub left: BorderEdge }
pub struct Scalar { pub value: f64 }
pub struct Spacing { pub top: Scalar, pub right: Scalar, pub bottom: Scalar, pub left: Scalar }
/// the parts of a computed style that decide the frame, and the rest
pub struct ComputedStyle { pub border: Border, pub outline: Border, pub padding: Spacing, pub border_title_align: AlignHorizontal, pub border_subtitle_align: AlignHorizontal, pub rest: Rest }
//@ extract crates/textual/src/border_box.rs type BoxSegments
//@ end
pub
//@ extract crates/textual/src/render_cache.rs struct RenderCache
//@ sub (?m)^(\s*)(\w+): ==> \1pub \2:
//@ end

// ---------------------------------------------------------------- cells
pub ghost struct Cv { pub sym: Seq<char>, pub part: int, pub width: int, pub style: Option<Style> }
pub open spec fn blank_cell(st: Option<Style>) -> Cv { Cv { sym: seq![' '], part: 0, width: 1, style: st } }
pub open spec fn char_cell(c: char, st: Option<Style>) -> Cv { Cv { sym: seq![c], part: 0, width: 1, style: st } }
pub open spec fn blanks(n: int, st: Option<Style>) -> Seq<Cv> { Seq::new(n as nat, |i: int| blank_cell(st)) }
pub open spec fn tidy(c: Seq<Cv>, a: int, b: int) -> Seq<Cv> {
    Seq::new((b - a) as nat, |i: int| if (i == 0 && c[a].part == 1) || (i == b - a - 1 && c[b - 1].part == 0 && c[b - 1].width == 2) { blank_cell(c[a + i].style) } else { c[a + i] })
}
/// exactly n cells of c: cut off, or filled up with blanks
#[verifier::opaque] pub open spec fn fit(c: Seq<Cv>, n: int, st: Option<Style>) -> Seq<Cv> { if c.len() >= n { tidy(c, 0, n) } else { c + blanks(n - c.len(), st) } }
#[verifier::opaque] pub open spec fn cut(c: Seq<Cv>, a: int, b: int) -> Seq<Cv> { let e = if b < c.len() { b } else { c.len() as int }; if a < e { tidy(c, a, e) } else { Seq::empty() } }
/// the cells of a text (uninterpreted; C04)
pub uninterp spec fn text_cells(t: Seq<char>, st: Option<Style>) -> Seq<Cv>;
/// a character that always takes one cell of its own
pub uninterp spec fn narrow(c: char) -> bool;
pub uninterp spec fn default_style() -> Style;
impl Segment {
    pub uninterp spec fn cells(&self) -> Seq<Cv>;
    pub uninterp spec fn sty(&self) -> Option<Style>;
    /// the first character of its text
    pub uninterp spec fn glyph(&self) -> char;
    #[verifier::external_body] fn clone(&self) -> (r: Segment) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn styled(text: String, style: Style) -> (r: Segment) ensures r.cells() == text_cells(text@, Some(style)), r.sty() == Some(style) { unimplemented!() }
    #[verifier::external_body] fn new(text: String) -> (r: Segment) ensures r.cells() == text_cells(text@, None), r.sty() is None { unimplemented!() }
    #[verifier::external_body] fn blank(width: usize, style: Option<Style>) -> (r: Segment) ensures r.cells() == blanks(width as int, style) { unimplemented!() }
    #[verifier::external_body] fn style(&self) -> (r: Option<&Style>) ensures unref(r) == self.sty() { unimplemented!() }
}
impl Style { #[verifier::external_body] pub fn clone(&self) -> (r: Style) ensures r == *self { unimplemented!() } }
pub open spec fn unref(a: Option<&Style>) -> Option<Style> { match a { Some(s) => Some(*s), None => None } }
fn cloned(a: Option<&Style>) -> (r: Option<Style>) ensures r == unref(a) { match a { Some(s) => Some(s.clone()), None => None } }
fn clone_style(a: &Option<Style>) -> (r: Option<Style>) ensures r == *a { match a { Some(s) => Some(s.clone()), None => None } }
#[verifier::external_body] fn or_default(a: Option<Style>) -> (r: Style) ensures r == (match a { Some(s) => s, None => default_style() }) { unimplemented!() }
pub open spec fn cat(s: Seq<Segment>) -> Seq<Cv> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().cells() } }
impl Strip {
    pub uninterp spec fn cells(&self) -> Seq<Cv>;
    /// style of the first and of the last of its pieces
    pub uninterp spec fn lead(&self) -> Option<Style>;
    pub uninterp spec fn trail(&self) -> Option<Style>;
    pub uninterp spec fn crop_of(&self, a: int, b: int) -> Strip;
    #[verifier::external_body] fn new() -> (r: Strip) ensures r.cells() == Seq::<Cv>::empty() { unimplemented!() }
    #[verifier::external_body] fn from_segments(v: Vec<Segment>) -> (r: Strip) requires cat(v@).len() <= usize::MAX ensures r.cells() == cat(v@) { unimplemented!() }
    #[verifier::external_body] fn from_segment(s: Segment) -> (r: Strip) ensures r.cells() == s.cells() { unimplemented!() }
    #[verifier::external_body] fn blank(width: usize, style: Option<Style>) -> (r: Strip) ensures r.cells() == blanks(width as int, style) { unimplemented!() }
    #[verifier::external_body] fn crop(&self, start: usize, end: usize) -> (r: Strip) ensures r == self.crop_of(start as int, end as int), r.cells() == cut(self.cells(), start as int, end as int) { unimplemented!() }
    #[verifier::external_body] fn adjust_cell_length(&self, length: usize, pad_style: Option<Style>) -> (r: Strip) ensures r.cells() == fit(self.cells(), length as int, pad_style) { unimplemented!() }
    #[verifier::external_body] fn cell_length(&self) -> (r: usize) ensures r == self.cells().len() { unimplemented!() }
}
#[verifier::external_body] fn first_style(s: &Strip) -> (r: Option<Style>) ensures r == s.lead() { unimplemented!() }
#[verifier::external_body] fn last_style(s: &Strip) -> (r: Option<Style>) ensures r == s.trail() { unimplemented!() }
/// n times the same character
#[verifier::external_body] fn repeated(c: char, n: usize) -> (r: String)
    ensures narrow(c) ==> forall|st: Option<Style>| #[trigger] text_cells(r@, st) == Seq::new(n as nat, |i: int| char_cell(c, st)), n == 0 ==> forall|st: Option<Style>| #[trigger] text_cells(r@, st) == Seq::<Cv>::empty() { unimplemented!() }
#[verifier::external_body] proof fn axiom_narrow() ensures narrow(' '), narrow('…') {}
#[verifier::external_body] fn first_char(s: &Segment, otherwise: char) -> (r: char) requires piece(*s) ensures r == s.glyph() { unimplemented!() }
#[verifier::external_body] fn extend_from(v: &mut Vec<Segment>, s: &Strip) ensures cat(final(v)@) == cat(old(v)@) + s.cells() { unimplemented!() }
fn one(a: Segment) -> (r: Vec<Segment>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }
fn two(a: Segment, b: Segment) -> (r: Vec<Segment>) ensures r@ == seq![a].push(b) { let mut v = one(a); v.push(b); v }
proof fn lemma_pushes() ensures
    forall|a: Seq<Segment>, s: Segment| #[trigger] cat(a.push(s)) == cat(a) + s.cells(), cat(Seq::<Segment>::empty()) == Seq::<Cv>::empty(), forall|s: Segment| #[trigger] cat(seq![s]) == s.cells(),
{
    assert forall|a: Seq<Segment>, s: Segment| #[trigger] cat(a.push(s)) == cat(a) + s.cells() by { assert(a.push(s).drop_last() =~= a); }
    assert forall|s: Segment| #[trigger] cat(seq![s]) == s.cells() by { assert(seq![s].drop_last() =~= Seq::<Segment>::empty()); assert(Seq::<Cv>::empty() + s.cells() =~= s.cells()); }
}

// ---------------------------------------------------------------- the frame
/// one glyph of a border: one cell
pub open spec fn piece(s: Segment) -> bool { narrow(s.glyph()) && s.sty() is Some && s.cells() == seq![char_cell(s.glyph(), s.sty())] }
pub open spec fn row_ok(b: BoxSegments) -> bool { piece(b.0) && piece(b.1) && piece(b.2) }
pub open spec fn box_ok(b: [BoxSegments; 3]) -> bool { row_ok(b@[0]) && row_ok(b@[1]) && row_ok(b@[2]) }
pub open spec fn small(n: int) -> bool { 0 <= n <= 0xffff_ffff }
#[verifier::opaque] pub open spec fn fill(f: Segment, n: int) -> Seq<Cv> { Seq::new(n as nat, |i: int| char_cell(f.glyph(), f.sty())) }
pub open spec fn shown(kind: BorderKind, not: BorderKind) -> bool { kind != BorderKind::None && kind != BorderKind::Hidden && kind != not }
/// fill cells to the left of a label that leaves `rest` of them
pub open spec fn left_of(align: AlignHorizontal, rest: int) -> int { match align { AlignHorizontal::Left => 1, AlignHorizontal::Center => rest / 2, AlignHorizontal::Right => rest - 1 } }
/// a label in n cells of fill, set off by blanks
#[verifier::opaque] pub open spec fn spaced(l: Strip, f: Segment, n: int, align: AlignHorizontal) -> Seq<Cv> {
    let k = l.cells().len(); let b = seq![blank_cell(l.lead())];
    if k + 4 <= n { fill(f, left_of(align, n - k - 2)) + b + l.cells() + b + fill(f, n - k - 2 - left_of(align, n - k - 2)) }
    else if n >= 5 { fill(f, 1) + b + cut(l.cells(), 0, n - 5) + seq![char_cell('…', l.crop_of(0, n - 5).trail())] + b + fill(f, 1) }
    else { fill(f, n) }
}
/// a label in n cells of fill
#[verifier::opaque] pub open spec fn close(l: Strip, f: Segment, n: int, align: AlignHorizontal) -> Seq<Cv> {
    let k = l.cells().len();
    if n < 3 { fill(f, n) }
    else if k + 2 <= n { fill(f, left_of(align, n - k)) + l.cells() + fill(f, n - k - left_of(align, n - k)) }
    else { fill(f, 1) + cut(l.cells(), 0, n - 3) + seq![char_cell('…', Some(match l.crop_of(0, n - 3).trail() { Some(s) => s, None => default_style() }))] + fill(f, 1) }
}
pub open spec fn cornered(b: BoxSegments, n: int, l: Option<&Strip>, align: AlignHorizontal) -> Seq<Cv> {
    if n <= 0 { Seq::empty() } else if n == 1 { b.0.cells() } else if n == 2 { b.0.cells() + b.2.cells() }
    else { b.0.cells() + (match l { Some(t) => spaced(*t, b.1, n - 2, align), None => fill(b.1, n - 2) }) + b.2.cells() }
}
#[verifier::opaque] pub open spec fn padded(c: Option<&Strip>, n: int, left: int, right: int, st: Option<Style>) -> Seq<Cv> {
    let room = if n >= left + right { n - left - right } else { 0 };
    blanks(left, st) + (match c { Some(t) => fit(t.cells(), room, st), None => blanks(room, st) }) + blanks(right, st)
}
#[verifier::opaque] pub open spec fn when(c: bool, s: Segment) -> Seq<Cv> { if c { s.cells() } else { Seq::empty() } }
pub open spec fn less(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
pub open spec fn num(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn short(l: Option<&Strip>) -> bool { l is Some ==> small(l->0.cells().len() as int) }
impl RenderCache {
    pub uninterp spec fn pad(&self) -> Option<Style>;
    pub open spec fn wf(&self) -> bool {
        &&& self.has_border == (self.has_top_border || self.has_right_border || self.has_bottom_border || self.has_left_border)
        &&& self.has_outline == (self.has_top_outline || self.has_right_outline || self.has_bottom_outline || self.has_left_outline)
        &&& self.has_border ==> self.border_box is Some && box_ok(self.border_box->0)
        &&& self.has_outline ==> self.outline_box is Some && box_ok(self.outline_box->0)
        &&& small(self.padding_top as int) && small(self.padding_right as int) && small(self.padding_bottom as int) && small(self.padding_left as int)
    }
    /// a line that is all border
    pub open spec fn edge_line(&self, b: BoxSegments, n: int, l: Option<&Strip>, align: AlignHorizontal) -> Seq<Cv> {
        if self.has_left_border && self.has_right_border { cornered(b, n, l, align) } else { match l { Some(t) => close(*t, b.1, n, align), None => fill(b.1, n) } }
    }
    /// a line between the sides
    pub open spec fn side_line(&self, b: BoxSegments, n: int, inside: Seq<Cv>) -> Seq<Cv> { when(self.has_left_border, b.0) + inside + when(self.has_right_border, b.2) }
    pub open spec fn room(&self, n: int) -> int { less(n, num(self.has_left_border) + num(self.has_right_border)) }
    pub open spec fn content_line(&self, n: int, c: Option<&Strip>) -> Seq<Cv> { padded(c, n, self.padding_left as int, self.padding_right as int, self.pad()) }
    /// line y of h, before anything is cut off and without the outline
    pub open spec fn base_line(&self, y: int, h: int, n: int, c: Option<&Strip>, title: Option<&Strip>, subtitle: Option<&Strip>) -> Seq<Cv> {
        let b = self.border_box->0@;
        let sides = self.has_left_border || self.has_right_border;
        if y == 0 && self.has_top_border { self.edge_line(b[0], n, title, self.style.border_title_align) }
        else if y == h - 1 && self.has_bottom_border { self.edge_line(b[2], n, subtitle, self.style.border_subtitle_align) }
        else if !sides { self.content_line(n, c) }
        else if y == 0 && title is Some { self.side_line(b[1], n, spaced(*title->0, b[1].1, self.room(n), self.style.border_title_align)) }
        else if y == h - 1 && subtitle is Some { self.side_line(b[1], n, spaced(*subtitle->0, b[1].1, self.room(n), self.style.border_subtitle_align)) }
        else { self.side_line(b[1], n, self.content_line(self.room(n), c)) }
    }
    /// the outline over a line
    pub open spec fn outlined(&self, base: Seq<Cv>, y: int, h: int, n: int) -> Seq<Cv> {
        let b = self.outline_box->0@;
        let (l, r) = (num(self.has_left_outline), num(self.has_right_outline));
        if !self.has_outline { base }
        else if y == 0 && self.has_top_outline { when(self.has_left_outline, b[0].0) + fill(b[0].1, less(n, l + r)) + when(self.has_right_outline, b[0].2) }
        else if y == h - 1 && self.has_bottom_outline { when(self.has_left_outline, b[2].0) + fill(b[2].1, less(n, l + r)) + when(self.has_right_outline, b[2].2) }
        else if l + r > 0 { when(self.has_left_outline, b[1].0) + fit(cut(base, l, l + less(n, l + r)), less(n, l + r), self.pad()) + when(self.has_right_outline, b[1].2) }
        else { base }
    }
    #[verifier::external_body] fn pad_style(&self) -> (r: Option<Style>) ensures r == self.pad() { unimplemented!() }
}
/// what a line shows: never more than the width
pub open spec fn shown_line(c: Seq<Cv>, n: int) -> Seq<Cv> { if c.len() > n { cut(c, 0, n) } else { c } }

// ---------------------------------------------------------------- border_render.rs
//@ extract crates/textual/src/border_render.rs fn repeat_segment
//@ ret r
//@ sub fill\.text\(\)\.chars\(\)\.next\(\)\.unwrap_or\((' ')\) ==> first_char(fill, \1)
//@ sub std::iter::repeat\(fill_char\)\s*\.take\((\w+)\)\s*\.collect\(\) ==> repeated(fill_char, \1)
//@ contract
    requires piece(*fill), small(count as int),
    ensures r.cells() =~= self::fill(*fill, count as int),
//@ start
    proof { reveal(self::fill); }
//@ end
//@ extract crates/textual/src/border_render.rs fn repeat_char_segment
//@ ret r
//@ sub fill\.text\(\)\.chars\(\)\.next\(\)\.unwrap_or\((' ')\) ==> first_char(fill, \1)
//@ sub std::iter::repeat\(fill_char\)\s*\.take\((\w+)\)\s*\.collect\(\) ==> repeated(fill_char, \1)
//@ sub Segment::new\(""\) ==> Segment::new(repeated(' ', 0))
//@ contract
    requires piece(*fill), small(count as int),
    ensures r.cells() =~= self::fill(*fill, count as int),
//@ start
    proof { reveal(self::fill); }
//@ end
//@ extract crates/textual/src/border_render.rs fn render_label_in_row
//@ ret r
//@ sub label\.segments\(\)\.first\(\)\.and_then\(\|s\| s\.style\(\)\.cloned\(\)\) ==> first_style(label)
//@ sub cropped\.segments\(\)\.last\(\)\.and_then\(\|s\| s\.style\(\)\.cloned\(\)\) ==> last_style(&cropped)
//@ sub " " ==> repeated(' ', 1)
//@ sub "…" ==> repeated('…', 1)
//@ sub segments\.extend\((\w+)\.segments\(\)\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, &\1);
//@ contract
    requires piece(*fill), small(width as int), small(label.cells().len() as int),
    ensures r.cells() =~= spaced(*label, *fill, width as int, align),
//@ start
    proof { axiom_narrow(); lemma_pushes(); reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); }
//@ end
//@ extract crates/textual/src/border_render.rs fn render_row
//@ ret r
//@ sub let \(left, fill, right\) = box_segments; ==> let left = &box_segments.0; let fill = &box_segments.1; let right = &box_segments.2;
//@ sub vec!\[left\.clone\(\), right\.clone\(\)\] ==> two(left.clone(), right.clone())
//@ sub vec!\[left\.clone\(\)\] ==> one(left.clone())
//@ sub segments\.extend\((\w+)\.segments\(\)\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, &\1);
//@ contract
    requires row_ok(*box_segments), small(width as int), short(title), short(subtitle),
    ensures r.cells() =~= (if title is Some { cornered(*box_segments, width as int, title, title_align) } else { cornered(*box_segments, width as int, subtitle, subtitle_align) }),
//@ start
    proof { lemma_pushes(); reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); }
//@ end

// ---------------------------------------------------------------- render_cache.rs
pub uninterp spec fn cells_in(x: f64) -> int;
#[verifier::external_body] fn as_cells(x: f64) -> (r: usize) ensures r == cells_in(x), small(r as int) { unimplemented!() }
/// the glyphs of a border in the style's colours (get_box, build_border_box_per_edge: tables, searched natively)
#[verifier::external_body] fn pieces_of(style: &ComputedStyle, outline: bool) -> (r: [BoxSegments; 3]) ensures box_ok(r) { unimplemented!() }
impl ComputedStyle { #[verifier::external_body] fn clone(&self) -> (r: ComputedStyle) ensures r == *self { unimplemented!() } }
impl RenderCache {
//@ extract crates/textual/src/render_cache.rs fn RenderCache::new
//@ ret r
//@ sub let effective_bg = style\.effective_background\(\); ==>
//@ sub let border_box = if has_border \{.*?\n        \} else \{ ==> let border_box = if has_border { Some(pieces_of(style, false)) } else {
//@ sub let outline_box = if has_outline \{.*?\n        \} else \{ ==> let outline_box = if has_outline { Some(pieces_of(style, true)) } else {
//@ sub (style\.padding\.\w+\.value) as usize ==> as_cells(\1)
//@ contract
    ensures r.wf(), r.style == *style,
        r.padding_top == cells_in(style.padding.top.value), r.padding_right == cells_in(style.padding.right.value), r.padding_bottom == cells_in(style.padding.bottom.value), r.padding_left == cells_in(style.padding.left.value),
        r.has_top_border == shown(style.border.top.kind, BorderKind::Vkey), r.has_bottom_border == shown(style.border.bottom.kind, BorderKind::Vkey),
        r.has_left_border == shown(style.border.left.kind, BorderKind::Hkey), r.has_right_border == shown(style.border.right.kind, BorderKind::Hkey),
        r.has_top_outline == shown(style.outline.top.kind, BorderKind::Vkey), r.has_bottom_outline == shown(style.outline.bottom.kind, BorderKind::Vkey),
        r.has_left_outline == shown(style.outline.left.kind, BorderKind::Hkey), r.has_right_outline == shown(style.outline.right.kind, BorderKind::Hkey),
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::border_top
//@ ret r
//@ contract
    ensures r == num(self.has_top_border),
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::border_right
//@ ret r
//@ contract
    ensures r == num(self.has_right_border),
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::border_bottom
//@ ret r
//@ contract
    ensures r == num(self.has_bottom_border),
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::border_left
//@ ret r
//@ contract
    ensures r == num(self.has_left_border),
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::padding_top
//@ ret r
//@ contract
    ensures r == self.padding_top,
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::padding_left
//@ ret r
//@ contract
    ensures r == self.padding_left,
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::has_border
//@ ret r
//@ contract
    ensures r == self.has_border,
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::inner_size
//@ ret r
//@ contract
    requires self.wf(),
    ensures r.0 == less(width as int, num(self.has_left_border) + num(self.has_right_border) + self.padding_left + self.padding_right),
        r.1 == less(height as int, num(self.has_top_border) + num(self.has_bottom_border) + self.padding_top + self.padding_bottom),
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::render_content_row
//@ ret r
//@ sub crate::segment::Segment ==> Segment
//@ sub segments\.extend\((\w+)\.segments\(\)\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, &\1);
//@ contract
    requires self.wf(), small(width as int),
    ensures r.cells() =~= self.content_line(width as int, content_line),
//@ start
    proof { lemma_pushes(); reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); }
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::render_horizontal_border_row
//@ ret r
//@ sub use crate::segment::Segment; ==>
//@ sub SIG:crate::border_box:: ==>
//@ sub SIG:tcss::types:: ==>
//@ sub tcss::types:: ==>
//@ sub let \(_left, fill, _right\) = box_segments; ==> let fill = &box_segments.1;
//@ sub fill\.text\(\)\.chars\(\)\.next\(\)\.unwrap_or\(('─')\) ==> first_char(fill, \1)
//@ sub fill\.style\(\)\.cloned\(\) ==> cloned(fill.style())
//@ sub std::iter::repeat\(fill_char\)\s*\.take\((\w+)\)\s*\.collect(?:::<String>)?\(\) ==> repeated(fill_char, \1)
//@ sub cropped\s*\.segments\(\)\s*\.last\(\)\s*\.and_then\(\|s\| s\.style\(\)\.cloned\(\)\)\s*\.unwrap_or_default\(\) ==> or_default(last_style(&cropped))
//@ sub fill_style\.clone\(\)\.unwrap_or_default\(\) ==> or_default(clone_style(&fill_style))
//@ sub fill_style\.unwrap_or_default\(\) ==> or_default(clone_style(&fill_style))
//@ sub "…" ==> repeated('…', 1)
//@ sub segments\.extend\((\w+)\.segments\(\)\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, &\1);
//@ contract
    requires row_ok(*box_segments), small(width as int), short(label),
    ensures r.cells() =~= (match label { Some(t) => close(*t, box_segments.1, width as int, align), None => self::fill(box_segments.1, width as int) }),
//@ start
    proof { axiom_narrow(); lemma_pushes(); reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); }
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::render_partial_middle_row
//@ ret r
//@ sub use crate::segment::Segment; ==>
//@ sub SIG:crate::border_box:: ==>
//@ sub let \(left, _fill, right\) = box_segments; ==> let left = &box_segments.0; let right = &box_segments.2;
//@ sub segments\.extend\((\w+)\.segments\(\)\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, &\1);
//@ contract
    requires self.wf(), row_ok(*box_segments), small(width as int),
    ensures r.cells() =~= self.side_line(*box_segments, width as int, self.content_line(self.room(width as int), content)),
//@ start
    proof { lemma_pushes(); reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); }
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::render_labeled_middle_row
//@ ret r
//@ sub SIG:crate::border_box:: ==>
//@ sub let \(left, fill, right\) = box_segments; ==> let left = &box_segments.0; let fill = &box_segments.1; let right = &box_segments.2;
//@ sub segments\.extend\((\w+)\.segments\(\)\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, &\1);
//@ contract
    requires self.wf(), row_ok(*box_segments), small(width as int), small(label.cells().len() as int),
    ensures r.cells() =~= self.side_line(*box_segments, width as int, spaced(*label, box_segments.1, self.room(width as int), align)),
//@ start
    proof { lemma_pushes(); reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); }
//@ end
//@ extract crates/textual/src/render_cache.rs fn RenderCache::apply_outline
//@ ret r
//@ sub use crate::segment::Segment; ==>
//@ sub let \(left, fill, right\) = &box_segs\[(\d)\]; ==> let left = &box_segs[\1].0; let fill = &box_segs[\1].1; let right = &box_segs[\1].2;
//@ sub let \(left, _fill, right\) = &box_segs\[(\d)\]; ==> let left = &box_segs[\1].0; let right = &box_segs[\1].2;
//@ sub fill\.text\(\)\.chars\(\)\.next\(\)\.unwrap_or\(('─')\) ==> first_char(fill, \1)
//@ sub fill\.style\(\)\.cloned\(\) ==> cloned(fill.style())
//@ sub fill_style\.unwrap_or_default\(\) ==> or_default(fill_style)
//@ sub std::iter::repeat\(fill_char\)\s*\.take\((\w+)\)\s*\.collect(?:::<String>)?\(\) ==> repeated(fill_char, \1)
//@ sub segments\.extend\((\w+)\.segments\(\)\.iter\(\)\.cloned\(\)\); ==> extend_from(&mut segments, &\1);
//@ contract
    requires self.wf(), small(width as int), width > 0, height > 0,
    ensures r.cells() =~= self.outlined(strip.cells(), y as int, height as int, width as int),
//@ start
    proof { lemma_pushes(); reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); }
//@ end
    proof fn lemma_wide(&self, y: int, h: int, n: int, c: Option<&Strip>, title: Option<&Strip>, subtitle: Option<&Strip>)
        requires self.wf(), 0 <= y < h, n > 0,
        ensures self.base_line(y, h, n, c, title, subtitle).len() >= n,
            forall|b: Seq<Cv>| b.len() >= n ==> (#[trigger] self.outlined(b, y, h, n)).len() >= n,
            forall|b: Seq<Cv>| b.len() > n ==> (#[trigger] cut(b, 0, n)).len() == n,
    {
        reveal(fit); reveal(cut); reveal(self::fill); reveal(spaced); reveal(close); reveal(padded); reveal(when); 
        assert forall|b: Seq<Cv>| b.len() >= n implies (#[trigger] self.outlined(b, y, h, n)).len() >= n by { }
    }
//@ extract crates/textual/src/render_cache.rs fn RenderCache::render_line
//@ ret r
//@ contract
    requires self.wf(), small(width as int), y < height, short(content_line), short(title), short(subtitle),
    ensures r.cells() == (if width == 0 { Seq::<Cv>::empty() } else { shown_line(self.outlined(self.base_line(y as int, height as int, width as int, content_line, title, subtitle), y as int, height as int, width as int), width as int) }),
        r.cells().len() == width,
//@ start
    proof { if width > 0 { self.lemma_wide(y as int, height as int, width as int, content_line, title, subtitle); } }
//@ end
}

// ---------------------------------------------------------------- containers.rs
pub
//@ extract crates/textual/src/canvas.rs struct Region
//@ end
impl Region {
pub
//@ extract crates/textual/src/canvas.rs fn Region::new
//@ ret r
//@ contract
    ensures r.x == x, r.y == y, r.width == (if width > 0 { width } else { 0i32 }), r.height == (if height > 0 { height } else { 0i32 }),
//@ end
}
impl Clone for Region { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Region {}
/// what has been drawn so far: lines and where they begin
#[verifier::external_body] pub struct Canvas { x: u8 }
impl Canvas {
    pub uninterp spec fn drawn(&self) -> Seq<(Seq<Cv>, int, int)>;
    #[verifier::external_body] fn render_strip(&mut self, s: &Strip, x: i32, y: i32) ensures final(self).drawn() == old(self).drawn().push((s.cells(), x as int, y as int)) { unimplemented!() }
}
pub open spec fn near(n: int) -> bool { -0x1000_0000 <= n <= 0x1000_0000 }
pub open spec fn near_region(r: Region) -> bool { near(r.x as int) && near(r.y as int) && near(r.width as int) && near(r.height as int) }
pub open spec fn near_padding(s: ComputedStyle) -> bool { near(cells_in(s.padding.top.value)) && near(cells_in(s.padding.right.value)) && near(cells_in(s.padding.bottom.value)) && near(cells_in(s.padding.left.value)) }
/// the region inside edges and padding
pub open spec fn inside(r: Region, s: ComputedStyle) -> (int, int, int, int) {
    let (t, b) = (num(shown(s.border.top.kind, BorderKind::Vkey)) + cells_in(s.padding.top.value), num(shown(s.border.bottom.kind, BorderKind::Vkey)) + cells_in(s.padding.bottom.value));
    let (le, ri) = (num(shown(s.border.left.kind, BorderKind::Hkey)) + cells_in(s.padding.left.value), num(shown(s.border.right.kind, BorderKind::Hkey)) + cells_in(s.padding.right.value));
    (r.x + le, r.y + t, less(r.width as int, le + ri), less(r.height as int, t + b))
}
pub open spec fn is_region(r: Region, t: (int, int, int, int)) -> bool { r.x == t.0 && r.y == t.1 && r.width == t.2 && r.height == t.3 }
//@ extract crates/textual/src/containers.rs fn inner_region_from_cache
//@ ret r
//@ contract
    requires near_region(region), near(cache.padding_left as int), near(cache.padding_top as int),
    ensures r.x == region.x + num(cache.has_left_border) + cache.padding_left, r.y == region.y + num(cache.has_top_border) + cache.padding_top, r.width == (if inner_width > 0 { inner_width } else { 0i32 }), r.height == (if inner_height > 0 { inner_height } else { 0i32 }),
//@ end
//@ extract crates/textual/src/containers.rs fn inner_region_for_container
//@ ret r
//@ contract
    requires near_region(region), near_padding(*style),
    ensures if region.width <= 0 || region.height <= 0 { r == region } else { is_region(r, inside(region, *style)) },
//@ end
//@ extract crates/textual/src/containers.rs fn render_container_chrome
//@ ret r
//@ nloops 1
//@ contract
    requires near_region(region), near_padding(*style),
    ensures if region.width <= 0 || region.height <= 0 { r == region && final(canvas).drawn() == old(canvas).drawn() } else { is_region(r, inside(region, *style))
        && final(canvas).drawn().len() == old(canvas).drawn().len() + region.height
        && (forall|y: int| 0 <= y < region.height ==> { let d = (#[trigger] final(canvas).drawn()[old(canvas).drawn().len() + y]); d.0.len() == region.width && d.1 == region.x && d.2 == region.y + y }) },
//@ loop 1
    invariant cache.wf(), width == region.width, height == region.height, width > 0, height > 0, near_region(region), canvas.drawn().len() == old(canvas).drawn().len() + y,
        forall|k: int| 0 <= k < y ==> { let d = (#[trigger] canvas.drawn()[old(canvas).drawn().len() + k]); d.0.len() == region.width && d.1 == region.x && d.2 == region.y + k },
//@ end
}
fn main() {}
