use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- the code's types
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/textual/src/canvas.rs struct TextAttributes
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Size
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Region
//@ end
/// colours are opaque here
#[derive(Clone, Copy)]
pub struct Color { pub v: u32 }
pub struct RgbaColor { pub v: u64 }
pub
//@ extract crates/textual/src/canvas.rs struct Cell
//@ end
pub
//@ extract crates/textual/src/canvas.rs struct Canvas
//@ sub (?m)^(\s*)(\w+): ==> \1pub \2:
//@ end
pub struct Viewport { pub width: i32, pub height: i32 }

// ---------------------------------------------------------------- vocabulary
/// a cell as seen by the specification (text as characters)
pub ghost struct CellV { pub symbol: Seq<char>, pub width: int, pub continuation: bool, pub fg: Option<Color>, pub bg: Option<Color>, pub attrs: TextAttributes }
pub open spec fn cv(c: Cell) -> CellV { CellV { symbol: c.symbol@, width: c.width as int, continuation: c.continuation, fg: c.fg, bg: c.bg, attrs: c.attrs } }
pub open spec fn view(c: Seq<Cell>) -> Seq<CellV> { Seq::new(c.len(), |i: int| cv(c[i])) }
pub open spec fn plain() -> TextAttributes { TextAttributes { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } }
pub open spec fn blank() -> CellV { CellV { symbol: seq![' '], width: 1, continuation: false, fg: None, bg: None, attrs: plain() } }
pub open spec fn inr(r: Region, x: int, y: int) -> bool { r.x <= x < r.x + r.width && r.y <= y < r.y + r.height }
impl Canvas {
    pub open spec fn w(&self) -> int { self.size.width as int }
    pub open spec fn h(&self) -> int { self.size.height as int }
    pub open spec fn screen(&self) -> Region { Region { x: 0, y: 0, width: self.size.width as i32, height: self.size.height as i32 } }
    pub open spec fn in_screen(&self, r: Region) -> bool { 0 <= r.x && 0 <= r.y && 0 <= r.width && 0 <= r.height && r.x + r.width <= self.w() && r.y + r.height <= self.h() }
    pub open spec fn wf(&self) -> bool {
        &&& self.cells@.len() == self.w() * self.h()
        &&& forall|i: int| 0 <= i < self.clip_stack@.len() ==> self.in_screen(#[trigger] self.clip_stack@[i])
    }
    pub open spec fn clip(&self) -> Region { if self.clip_stack@.len() == 0 { self.screen() } else { self.clip_stack@.last() } }
    /// everything but the cells
    pub open spec fn same_but_cells(&self, o: &Canvas) -> bool { self.size == o.size && self.prev_cells == o.prev_cells && self.first_flush == o.first_flush && self.clip_stack == o.clip_stack && self.wf() }
}
pub uninterp spec fn resolve(bg: Option<RgbaColor>, existing: Option<Color>) -> Option<Color>;
pub uninterp spec fn is_translucent(bg: RgbaColor) -> bool;
pub uninterp spec fn term_color(c: RgbaColor) -> Color;
pub uninterp spec fn segmented(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn dw(g: Seq<char>) -> int;
pub open spec fn unref(b: Option<&RgbaColor>) -> Option<RgbaColor> { match b { Some(c) => Some(*c), None => None } }
pub open spec fn opt_term(b: Option<RgbaColor>) -> Option<Color> { match b { Some(c) => Some(term_color(c)), None => None } }

/// where a grapheme may go: every one of its cells inside the screen and the clip
pub open spec fn fits(w: int, h: int, clip: Region, x: int, y: int, n: int) -> bool {
    clip.y <= y < clip.y + clip.height && 0 <= y < h && clip.x <= x && 0 <= x && x + n <= clip.x + clip.width && x + n <= w
}
pub ghost struct Pen { pub fg: Option<Color>, pub bg: Option<RgbaColor>, pub attrs: TextAttributes }
/// a translucent background painted with a plain blank keeps the text below
pub open spec fn keeps(p: Pen, g: Seq<char>, n: int) -> bool { p.bg is Some && is_translucent(p.bg->0) && g == seq![' '] && n == 1 && p.fg is None && p.attrs == plain() }
pub open spec fn painted(p: Pen, g: Seq<char>, n: int, off: int, old: CellV) -> CellV {
    let bg = resolve(p.bg, old.bg);
    if keeps(p, g, n) { CellV { bg: if bg is Some { bg } else { old.bg }, ..old } }
    else if off == 0 { CellV { symbol: g, width: n, continuation: false, fg: p.fg, bg, attrs: p.attrs } }
    else { CellV { symbol: seq![' '], width: 0, continuation: true, fg: p.fg, bg, attrs: p.attrs } }
}
/// one grapheme of n cells drawn at (x, y)
pub open spec fn put(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, g: Seq<char>, n: int, p: Pen) -> Seq<CellV> {
    if fits(w, h, clip, x, y, n) { Seq::new(c.len(), |i: int| if y * w + x <= i < y * w + x + n { painted(p, g, n, i - (y * w + x), c[i]) } else { c[i] }) } else { c }
}
pub open spec fn cells_before(gs: Seq<Seq<char>>, k: int) -> int decreases k { if k <= 0 { 0 } else { cells_before(gs, k - 1) + dw(gs[k - 1]) } }
/// the first k graphemes of a text drawn side by side from (x, y)
pub open spec fn put_text(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, gs: Seq<Seq<char>>, p: Pen, k: int) -> Seq<CellV> decreases k {
    if k <= 0 { c } else { put(put_text(c, w, h, clip, x, y, gs, p, k - 1), w, h, clip, x + cells_before(gs, k - 1), y, gs[k - 1], dw(gs[k - 1]), p) }
}

// ---------------------------------------------------------------- theorems: the property, from put
proof fn lemma_index(w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures 0 <= y * w + x < w * h, 0 <= y * w <= w * h - w,
{
    assert(y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
    assert(0 <= y * w <= w * h - w) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
}
/// only cells inside the screen and the clip change
proof fn theorem_put_inside(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, g: Seq<char>, n: int, p: Pen, a: int, b: int)
    requires 0 <= a < w, 0 <= b < h, c.len() == w * h, n >= 1,
    ensures put(c, w, h, clip, x, y, g, n, p).len() == c.len(),
        !inr(clip, a, b) ==> put(c, w, h, clip, x, y, g, n, p)[b * w + a] == c[b * w + a],
        (b != y || !(x <= a < x + n)) ==> put(c, w, h, clip, x, y, g, n, p)[b * w + a] == c[b * w + a],
        fits(w, h, clip, x, y, n) && b == y && x <= a < x + n ==> put(c, w, h, clip, x, y, g, n, p)[b * w + a] == painted(p, g, n, a - x, c[b * w + a]),
{
    lemma_index(w, h, a, b);
    if fits(w, h, clip, x, y, n) && y * w + x <= b * w + a < y * w + x + n {
        assert((b - y) * w == b * w - y * w) by (nonlinear_arith);
        assert(b == y) by (nonlinear_arith) requires (b - y) * w == b * w - y * w, y * w + x <= b * w + a, b * w + a < y * w + x + n, 0 <= a < w, 0 <= x, x + n <= w;
    }
}
proof fn theorem_text_inside(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, gs: Seq<Seq<char>>, p: Pen, k: int, a: int, b: int)
    requires 0 <= a < w, 0 <= b < h, c.len() == w * h, 0 <= k <= gs.len(), forall|i: int| 0 <= i < gs.len() ==> 1 <= #[trigger] dw(gs[i]) <= 2,
    ensures put_text(c, w, h, clip, x, y, gs, p, k).len() == c.len(), (b != y || !inr(clip, a, b)) ==> put_text(c, w, h, clip, x, y, gs, p, k)[b * w + a] == c[b * w + a],
    decreases k,
{
    if k > 0 {
        theorem_text_inside(c, w, h, clip, x, y, gs, p, k - 1, a, b);
        assert(dw(gs[k - 1]) >= 1);
        theorem_put_inside(put_text(c, w, h, clip, x, y, gs, p, k - 1), w, h, clip, x + cells_before(gs, k - 1), y, gs[k - 1], dw(gs[k - 1]), p, a, b);
    }
}
/// graphemes past the right edge, or on a row outside, change nothing
proof fn lemma_text_rest(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, gs: Seq<Seq<char>>, p: Pen, k: int, n: int)
    requires 0 <= k <= n <= gs.len(), forall|i: int| 0 <= i < gs.len() ==> 1 <= #[trigger] dw(gs[i]) <= 2,
        x + cells_before(gs, k) >= clip.x + clip.width || !(clip.y <= y < clip.y + clip.height && 0 <= y < h),
    ensures put_text(c, w, h, clip, x, y, gs, p, n) == put_text(c, w, h, clip, x, y, gs, p, k), cells_before(gs, n) >= cells_before(gs, k),
    decreases n,
{
    if n > k { lemma_text_rest(c, w, h, clip, x, y, gs, p, k, n - 1); assert(dw(gs[n - 1]) >= 1); }
}
proof fn lemma_text_len(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, gs: Seq<Seq<char>>, p: Pen, k: int)
    ensures put_text(c, w, h, clip, x, y, gs, p, k).len() == c.len(),
    decreases k,
{ if k > 0 { lemma_text_len(c, w, h, clip, x, y, gs, p, k - 1); } }

// ---------------------------------------------------------------- trusted helpers
fn imax(a: i32, b: i32) -> (r: i32) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
fn imin(a: i32, b: i32) -> (r: i32) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub assume_specification [ i32::saturating_add ](a: i32, b: i32) -> (r: i32)
    ensures r == if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b };
fn last_clip(v: &Vec<Region>, d: Region) -> (r: Region) ensures r == if v@.len() == 0 { d } else { v@.last() } { if v.len() == 0 { d } else { v[v.len() - 1] } }
#[verifier::external_body] fn resolve_background(bg: Option<&RgbaColor>, existing: Option<Color>) -> (r: Option<Color>) ensures r == resolve(unref(bg), existing) { unimplemented!() }
#[verifier::external_body] fn translucent(c: &RgbaColor) -> (r: bool) ensures r == is_translucent(*c) { unimplemented!() }
#[verifier::external_body] fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn owned(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
#[verifier::external_body] fn char_str(c: char) -> (r: &'static str) ensures r@ == seq![c], segmented(r@) == seq![seq![c]] { unimplemented!() }
#[verifier::external_body] fn to_crossterm_color(c: RgbaColor) -> (r: Color) ensures r == term_color(c) { unimplemented!() }
fn map_color(c: Option<RgbaColor>) -> (r: Option<Color>) ensures r == opt_term(c) { match c { Some(c) => Some(to_crossterm_color(c)), None => None } }
/// unicode_display_width of one grapheme is 1 or 2
#[verifier::external_body] fn display_width(g: &str) -> (r: usize) ensures r == dw(g@), 1 <= r <= 2 { unimplemented!() }
#[verifier::external_body] fn graphemes_vec(s: &str) -> (r: Vec<&str>) ensures r@.len() == segmented(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == segmented(s@)[i] { unimplemented!() }
/// every grapheme of a text is one or two cells wide
#[verifier::external_body] proof fn axiom_grapheme_width(s: Seq<char>) ensures forall|i: int| 0 <= i < segmented(s).len() ==> 1 <= #[trigger] dw(segmented(s)[i]) <= 2 {}
#[verifier::external_body] fn cells_of(c: &Cell, n: usize) -> (r: Vec<Cell>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cv(#[trigger] r@[i]) == cv(*c) { unimplemented!() }
#[verifier::external_body] fn fill_cells(v: &mut Vec<Cell>, c: Cell) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> cv(#[trigger] final(v)@[i]) == cv(c) { unimplemented!() }
fn default_attrs() -> (r: TextAttributes) ensures r == plain() { TextAttributes { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } }
fn is_plain(a: TextAttributes) -> (r: bool) ensures r == (a == plain()) { !a.bold && !a.dim && !a.italic && !a.underline && !a.strike && !a.reverse }

// ---------------------------------------------------------------- functions under contract
impl Region {
//@ extract crates/textual/src/canvas.rs fn Region::intersection
//@ ret r
//@ sub self\.(\w)\.max\(other\.(\w)\) ==> imax(self.\1, other.\2)
//@ sub self\s*\.(\w)\s*\.saturating_add\(self\.(\w+)\)\s*\.min\(other\.(\w)\.saturating_add\(other\.(\w+)\)\) ==> imin(self.\1.saturating_add(self.\2), other.\3.saturating_add(other.\4))
//@ nloops 0
//@ contract
    requires 0 <= other.x, 0 <= other.y, other.x + other.width <= i32::MAX, other.y + other.height <= i32::MAX, 0 <= other.width, 0 <= other.height,
    ensures forall|a: int, b: int| inr(r, a, b) <==> inr(*self, a, b) && inr(*other, a, b),
        0 <= r.width, 0 <= r.height, 0 <= r.x, 0 <= r.y,
        r.width > 0 ==> other.x <= r.x && r.x + r.width <= other.x + other.width && other.y <= r.y && r.y + r.height <= other.y + other.height,
        r.width == 0 ==> r.x == 0 && r.y == 0 && r.height == 0,
//@ end
}
impl Canvas {
//@ extract crates/textual/src/canvas.rs fn Canvas::new
//@ ret r
//@ nloops 0
//@ sub " "\.to_string\(\) ==> owned(" ")
//@ sub TextAttributes::default\(\) ==> default_attrs()
//@ sub vec!\[blank_cell\.clone\(\); cell_count\] ==> cells_of(&blank_cell, cell_count)
//@ sub vec!\[blank_cell; cell_count\] ==> cells_of(&blank_cell, cell_count)
//@ sub let cell_count = ==> proof { assert(width * height <= 0xffff * 0xffff) by (nonlinear_arith) requires 0 <= width <= 0xffff, 0 <= height <= 0xffff; reveal_strlit(" "); assert(" "@ =~= seq![' ']); } let cell_count =
//@ contract
    ensures r.wf(), r.size.width == width, r.size.height == height, r.clip_stack@.len() == 0,
        forall|i: int| 0 <= i < r.cells@.len() ==> cv(#[trigger] r.cells@[i]) == blank(),
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::current_clip
//@ ret r
//@ nloops 0
//@ sub self\.clip_stack\.last\(\)\.cloned\(\)\.unwrap_or\( ==> last_clip(&self.clip_stack, 
//@ contract
    ensures r == self.clip(),
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::push_clip
//@ nloops 0
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).size == old(self).size, final(self).cells == old(self).cells, final(self).prev_cells == old(self).prev_cells, final(self).first_flush == old(self).first_flush,
        final(self).clip_stack@.len() == old(self).clip_stack@.len() + 1, final(self).clip_stack@.drop_last() == old(self).clip_stack@,
        forall|a: int, b: int| inr(final(self).clip(), a, b) <==> inr(region, a, b) && inr(old(self).clip(), a, b),
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::pop_clip
//@ nloops 0
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).size == old(self).size, final(self).cells == old(self).cells, final(self).prev_cells == old(self).prev_cells, final(self).first_flush == old(self).first_flush,
        final(self).clip_stack@ == if old(self).clip_stack@.len() == 0 { old(self).clip_stack@ } else { old(self).clip_stack@.drop_last() },
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::clear
//@ nloops 0
//@ sub self\.cells\.fill\( ==> fill_cells(&mut self.cells, 
//@ sub " "\.to_string\(\) ==> owned(" ")
//@ sub TextAttributes::default\(\) ==> default_attrs()
//@ start
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).size == old(self).size, final(self).prev_cells == old(self).prev_cells, final(self).first_flush == old(self).first_flush, final(self).clip_stack@.len() == 0,
        forall|i: int| 0 <= i < final(self).cells@.len() ==> cv(#[trigger] final(self).cells@[i]) == blank(),
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::put_grapheme
//@ sub matches!\(bg, Some\(bg_color\) if bg_color\.a < 1\.0 && !bg_color\.is_transparent\(\)\) ==> (match bg { Some(bg_color) => translucent(bg_color), None => false })
//@ sub grapheme == " " ==> str_is(grapheme, " ")
//@ sub attrs == TextAttributes::default\(\) ==> is_plain(attrs)
//@ sub grapheme\.to_string\(\) ==> owned(grapheme)
//@ sub " "\.to_string\(\) ==> owned(" ")
//@ nloops 1
//@ contract
    requires old(self).wf(), 1 <= width <= 2, old(self).in_screen(*clip),
    ensures final(self).same_but_cells(old(self)),
        view(final(self).cells@) == put(view(old(self).cells@), old(self).w(), old(self).h(), *clip, x as int, y as int, grapheme@, width as int, Pen { fg, bg: unref(bg), attrs }),
//@ start
    let ghost o = view(self.cells@); let ghost p = Pen { fg, bg: unref(bg), attrs }; let ghost base = y * self.size.width + x; let ghost o_self = *self;
    proof {
        reveal_strlit(" "); assert(" "@ =~= seq![' ']);
        if fits(self.w(), self.h(), *clip, x as int, y as int, width as int) { lemma_index(self.w(), self.h(), x as int, y as int); lemma_index(self.w(), self.h(), x + width - 1, y as int);
            assert(0 <= y * self.size.width) by (nonlinear_arith) requires y >= 0; assert(self.w() * self.h() <= 0xffff * 0xffff) by (nonlinear_arith) requires 0 <= self.w() <= 0xffff, 0 <= self.h() <= 0xffff; }
    }
//@ loop 1
    invariant self.same_but_cells(&o_self), self.in_screen(*clip), o == view(o_self.cells@), fits(self.w(), self.h(), *clip, x as int, y as int, width as int), base == y * self.size.width + x, 1 <= width <= 2, 0 <= y * self.size.width, base + width <= self.cells@.len(), self.cells@.len() <= 0xffff * 0xffff,
        p == (Pen { fg, bg: unref(bg), attrs }), preserve_text == keeps(p, grapheme@, width as int), " "@ == seq![' '], self.cells@.len() == o.len(),
        forall|i: int| 0 <= i < o.len() ==> #[trigger] view(self.cells@)[i] == if base <= i < base + offset { painted(p, grapheme@, width as int, i - base, o[i]) } else { o[i] },
//@ loop_start 1
    let ghost before = view(self.cells@);
    proof { assert(before[base + offset] == o[base + offset]); assert(cv(self.cells@[base + offset]) == o[base + offset]); assert(y * self.size.width + (x + offset) == base + offset); assert(!preserve_text); }
//@ loop_end 1
    proof { assert forall|i: int| 0 <= i < o.len() implies #[trigger] view(self.cells@)[i] == if base <= i < base + offset + 1 { painted(p, grapheme@, width as int, i - base, o[i]) } else { o[i] } by { assert(before[i] == before[i]); if i == base + offset { assert(cv(self.cells@[i]).continuation); assert(cv(self.cells@[i]) == painted(p, grapheme@, width as int, offset as int, o[i])); } else { assert(view(self.cells@)[i] == before[i]); } } }
//@ after_loop 1
    proof { assert(view(self.cells@) =~= put(o, self.w(), self.h(), *clip, x as int, y as int, grapheme@, width as int, p)); }
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::put_char
//@ sub let mut buf = \[0u8; 4\];\s*let grapheme = c\.encode_utf8\(&mut buf\); ==> let grapheme = char_str(c);
//@ sub fg\.map\(to_crossterm_color\) ==> map_color(fg)
//@ nloops 0
//@ contract
    requires old(self).wf(),
    ensures final(self).same_but_cells(old(self)),
        view(final(self).cells@) == put(view(old(self).cells@), old(self).w(), old(self).h(), old(self).clip(), x as int, y as int, seq![c], dw(seq![c]), Pen { fg: opt_term(fg), bg, attrs }),
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::put_str
//@ sub fg\.map\(to_crossterm_color\) ==> map_color(fg)
//@ sub for grapheme in graphemes\(s\) \{ ==> let gs = graphemes_vec(s); for gi in 0..gs.len() { let grapheme = gs[gi];
//@ nloops 1
//@ contract
    requires old(self).wf(),
    ensures final(self).same_but_cells(old(self)),
        view(final(self).cells@) == put_text(view(old(self).cells@), old(self).w(), old(self).h(), old(self).clip(), x as int, y as int, segmented(s@), Pen { fg: opt_term(fg), bg, attrs }, segmented(s@).len() as int),
//@ start
    let ghost o_self = *self; let ghost p = Pen { fg: opt_term(fg), bg, attrs }; let ghost sg = segmented(s@);
    let ghost o = view(self.cells@); let ghost clp = self.clip();
    proof {
        axiom_grapheme_width(s@);
        if !(clp.y <= y < clp.y + clp.height && 0 <= y < self.h()) { lemma_text_rest(o, self.w(), self.h(), clp, x as int, y as int, sg, p, 0, sg.len() as int); }
    }
//@ loop 1
    invariant_except_break current_x == x + cells_before(sg, gi as int),
        view(self.cells@) == put_text(o, self.w(), self.h(), clip, x as int, y as int, sg, p, gi as int),
    invariant self.same_but_cells(&o_self), o == view(o_self.cells@), clip == self.clip(), p == (Pen { fg, bg: unref(bg), attrs }), sg == segmented(s@), gs@.len() == sg.len(),
        forall|i: int| 0 <= i < gs@.len() ==> (#[trigger] gs@[i])@ == sg[i], forall|i: int| 0 <= i < sg.len() ==> 1 <= #[trigger] dw(sg[i]) <= 2, self.in_screen(clip),
    ensures view(self.cells@) == put_text(o, self.w(), self.h(), clip, x as int, y as int, sg, p, sg.len() as int),
//@ loop_start 1
    proof { if current_x >= clip.x + clip.width { lemma_text_rest(o, self.w(), self.h(), clip, x as int, y as int, sg, p, gi as int, sg.len() as int); } }
//@ end
}

// ---------------------------------------------------------------- styled lines
pub struct Style { pub fg: Option<RgbaColor>, pub bg: Option<RgbaColor>, pub bold: bool, pub dim: bool, pub italic: bool, pub underline: bool, pub strike: bool, pub reverse: bool }
pub struct Segment { pub text: String, pub cell_length: usize, pub style: Option<Style> }
pub struct Strip { pub segments: Vec<Segment> }
impl RgbaColor { #[verifier::external_body] fn clone(&self) -> (r: RgbaColor) ensures r == *self { unimplemented!() } }
fn cloned_color(c: Option<&RgbaColor>) -> (r: Option<RgbaColor>) ensures r == unref(c) { match c { Some(c) => Some(c.clone()), None => None } }
pub open spec fn seg_pen(s: Segment) -> Pen {
    match s.style {
        Some(t) => Pen { fg: opt_term(t.fg), bg: t.bg, attrs: TextAttributes { bold: t.bold, dim: t.dim, italic: t.italic, underline: t.underline, strike: t.strike, reverse: t.reverse } },
        None => Pen { fg: None, bg: None, attrs: plain() },
    }
}
impl Segment {
//@ extract crates/textual/src/segment.rs fn Segment::text
//@ ret r
//@ sub &self\.text ==> self.text.as_str()
//@ contract
    ensures r@ == self.text@,
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::style
//@ ret r
//@ contract
    ensures match self.style { Some(t) => r is Some && *r->0 == t, None => r is None },
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::fg
//@ ret r
//@ sub self\.style\.as_ref\(\)\.and_then\(\|s\| s\.fg\.as_ref\(\)\) ==> match self.style.as_ref() { Some(s) => s.fg.as_ref(), None => None }
//@ contract
    ensures unref(r) == match self.style { Some(t) => t.fg, None => None },
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::bg
//@ ret r
//@ sub self\.style\.as_ref\(\)\.and_then\(\|s\| s\.bg\.as_ref\(\)\) ==> match self.style.as_ref() { Some(s) => s.bg.as_ref(), None => None }
//@ contract
    ensures unref(r) == match self.style { Some(t) => t.bg, None => None },
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::cell_length
//@ ret r
//@ contract
    ensures r == self.cell_length,
//@ end
}
impl Strip {
//@ extract crates/textual/src/strip.rs fn Strip::segments
//@ ret r
//@ sub &self\.segments ==> self.segments.as_slice()
//@ contract
    ensures r@ == self.segments@,
//@ end
}
pub open spec fn sat(a: int) -> int { if a > i32::MAX { i32::MAX as int } else if a < i32::MIN { i32::MIN as int } else { a } }
/// where the k-th segment starts
pub open spec fn seg_x(t: Seq<Segment>, x: int, k: int) -> int decreases k { if k <= 0 { x } else { sat(seg_x(t, x, k - 1) + t[k - 1].cell_length) } }
pub open spec fn put_segs(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, t: Seq<Segment>, k: int) -> Seq<CellV> decreases k {
    if k <= 0 { c } else { put_text(put_segs(c, w, h, clip, x, y, t, k - 1), w, h, clip, seg_x(t, x, k - 1), y, segmented(t[k - 1].text@), seg_pen(t[k - 1]), segmented(t[k - 1].text@).len() as int) }
}
pub open spec fn put_strips(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, t: Seq<Strip>, k: int) -> Seq<CellV> decreases k {
    if k <= 0 { c } else { put_segs(put_strips(c, w, h, clip, x, y, t, k - 1), w, h, clip, x, sat(y + k - 1), t[k - 1].segments@, t[k - 1].segments@.len() as int) }
}
proof fn theorem_segs_inside(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, t: Seq<Segment>, k: int, a: int, b: int)
    requires 0 <= a < w, 0 <= b < h, c.len() == w * h, 0 <= k <= t.len(),
    ensures put_segs(c, w, h, clip, x, y, t, k).len() == c.len(), (b != y || !inr(clip, a, b)) ==> put_segs(c, w, h, clip, x, y, t, k)[b * w + a] == c[b * w + a],
    decreases k,
{
    if k > 0 {
        theorem_segs_inside(c, w, h, clip, x, y, t, k - 1, a, b);
        let gs = segmented(t[k - 1].text@);
        axiom_grapheme_width(t[k - 1].text@);
        theorem_text_inside(put_segs(c, w, h, clip, x, y, t, k - 1), w, h, clip, seg_x(t, x, k - 1), y, gs, seg_pen(t[k - 1]), gs.len() as int, a, b);
    }
}
proof fn theorem_strips_inside(c: Seq<CellV>, w: int, h: int, clip: Region, x: int, y: int, t: Seq<Strip>, k: int, a: int, b: int)
    requires 0 <= a < w, 0 <= b < h, c.len() == w * h, 0 <= k <= t.len(),
    ensures put_strips(c, w, h, clip, x, y, t, k).len() == c.len(), !inr(clip, a, b) ==> put_strips(c, w, h, clip, x, y, t, k)[b * w + a] == c[b * w + a],
    decreases k,
{
    if k > 0 {
        theorem_strips_inside(c, w, h, clip, x, y, t, k - 1, a, b);
        theorem_segs_inside(put_strips(c, w, h, clip, x, y, t, k - 1), w, h, clip, x, sat(y + k - 1), t[k - 1].segments@, t[k - 1].segments@.len() as int, a, b);
    }
}
impl Canvas {
//@ extract crates/textual/src/canvas.rs fn Canvas::render_strip
//@ sub for segment in strip\.segments\(\) \{ ==> let segs = strip.segments(); for si in 0..segs.len() { let segment = &segs[si];
//@ sub segment\.(fg|bg)\(\)\.cloned\(\) ==> cloned_color(segment.\1())
//@ sub segment\s*\.style\(\)\s*\.map\(\|s\| (TextAttributes \{.*?\})\)\s*\.unwrap_or_default\(\) ==> match segment.style() { Some(s) => \1, None => default_attrs() }
//@ nloops 1
//@ contract
    requires old(self).wf(), forall|i: int| 0 <= i < strip.segments@.len() ==> (#[trigger] strip.segments@[i]).cell_length <= i32::MAX,
    ensures final(self).same_but_cells(old(self)),
        view(final(self).cells@) == put_segs(view(old(self).cells@), old(self).w(), old(self).h(), old(self).clip(), x as int, y as int, strip.segments@, strip.segments@.len() as int),
//@ start
    let ghost o_self = *self; let ghost t = strip.segments@;
//@ loop 1
    invariant self.same_but_cells(&o_self), self.wf(), segs@ == t, current_x == seg_x(t, x as int, si as int), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).cell_length <= i32::MAX,
        view(self.cells@) == put_segs(view(o_self.cells@), self.w(), self.h(), self.clip(), x as int, y as int, t, si as int),
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::render_strips
//@ sub for \(i, strip\) in strips\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..strips.len() { let strip = &strips[i];
//@ nloops 1
//@ contract
    requires old(self).wf(), strips@.len() <= i32::MAX, forall|k: int, i: int| 0 <= k < strips@.len() && 0 <= i < strips@[k].segments@.len() ==> (#[trigger] strips@[k].segments@[i]).cell_length <= i32::MAX,
    ensures final(self).same_but_cells(old(self)),
        view(final(self).cells@) == put_strips(view(old(self).cells@), old(self).w(), old(self).h(), old(self).clip(), x as int, start_y as int, strips@, strips@.len() as int),
//@ start
    let ghost o_self = *self;
//@ loop 1
    invariant self.same_but_cells(&o_self), self.wf(), strips@.len() <= i32::MAX, forall|k: int, i: int| 0 <= k < strips@.len() && 0 <= i < strips@[k].segments@.len() ==> (#[trigger] strips@[k].segments@[i]).cell_length <= i32::MAX,
        view(self.cells@) == put_strips(view(o_self.cells@), self.w(), self.h(), self.clip(), x as int, start_y as int, strips@, i as int),
//@ end
}
}
