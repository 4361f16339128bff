use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- the code's types
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/textual/src/canvas.rs struct TextAttributes
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Size
//@ end
#[derive(Clone, Copy)]
pub struct Region { pub x: i32, pub y: i32, pub width: i32, pub height: i32 }
/// crossterm's colours: the reset marker and the RGB values a canvas cell can hold
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Color { Reset, Rgb { r: u8, g: u8, b: u8 } }
pub
//@ extract crates/textual/src/canvas.rs struct Cell
//@ end
pub
//@ extract crates/textual/src/canvas.rs struct Canvas
//@ sub (?m)^(\s*)(\w+): ==> \1pub \2:
//@ end

// ---------------------------------------------------------------- what a terminal shows
pub open spec fn plain() -> TextAttributes { TextAttributes { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } }
pub ghost struct Style { pub fg: Option<Color>, pub bg: Option<Color>, pub attrs: TextAttributes }
/// one position of the screen: a grapheme with its style, or the right half of the grapheme to its left
pub ghost enum Shown { Head { symbol: Seq<char>, width: int, style: Style }, Right }
pub open spec fn wide(s: Shown) -> bool { s is Head && s->width == 2 }
pub open spec fn empty(st: Style) -> Shown { Shown::Head { symbol: seq![' '], width: 1, style: st } }
/// heads of two-cell graphemes and right halves come in pairs
pub open spec fn paired(t: Seq<Shown>) -> bool {
    &&& forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> (t[i] is Head ==> 1 <= t[i]->width <= 2) && (wide(t[i]) ==> i + 1 < t.len() && t[i + 1] is Right) && (t[i] is Right ==> i > 0 && wide(t[i - 1]))
}
/// A terminal of `cols` columns with automatic margins: positions are numbered row by row, and printing goes on
/// at the next position.
pub struct Term { pub cols: Ghost<int>, pub cells: Ghost<Seq<Shown>>, pub at: Ghost<int>, pub style: Ghost<Style> }
pub uninterp spec fn junk(s: Seq<Shown>) -> Style;
/// printing a grapheme of n cells at p: what it overlaps of other wide graphemes is blanked
pub open spec fn printed(t: Seq<Shown>, p: int, symbol: Seq<char>, n: int, st: Style) -> Seq<Shown> {
    Seq::new(t.len(), |i: int|
        if i == p { Shown::Head { symbol, width: n, style: st } }
        else if p < i < p + n { Shown::Right }
        else if i == p - 1 && t[p] is Right { empty(junk(t)) }
        else if i == p + n && t[i] is Right { empty(junk(t)) }
        else { t[i] })
}
proof fn lemma_printed_paired(t: Seq<Shown>, p: int, symbol: Seq<char>, n: int, st: Style)
    requires paired(t), 0 <= p, p + n <= t.len(), 1 <= n <= 2,
    ensures paired(printed(t, p, symbol, n, st)), printed(t, p, symbol, n, st).len() == t.len(),
{
    let u = printed(t, p, symbol, n, st);
    assert forall|i: int| #![trigger u[i]] 0 <= i < u.len() implies (u[i] is Head ==> 1 <= u[i]->width <= 2) && (wide(u[i]) ==> i + 1 < u.len() && u[i + 1] is Right) && (u[i] is Right ==> i > 0 && wide(u[i - 1])) by {
        assert(t[i] is Head ==> 1 <= t[i]->width <= 2);
        if i + 1 < t.len() { assert(t[i + 1] is Right ==> wide(t[i])); }
        if i > 0 { assert(wide(t[i - 1]) ==> t[i] is Right); }
        if i == p - 1 { assert(t[p] is Right ==> wide(t[p - 1])); }
    }
}
impl Term {
    pub open spec fn ok(&self) -> bool { paired(self.cells@) && self.cols@ > 0 }
    #[verifier::external_body] fn move_to(&mut self, x: u16, y: u16)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).style == old(self).style, final(self).at@ == y * old(self).cols@ + x { unimplemented!() }
    #[verifier::external_body] fn set_Fore(&mut self, c: Color)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { fg: if c == Color::Reset { None } else { Some(c) }, ..old(self).style@ }) { unimplemented!() }
    #[verifier::external_body] fn set_Back(&mut self, c: Color)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { bg: if c == Color::Reset { None } else { Some(c) }, ..old(self).style@ }) { unimplemented!() }
    /// SGR 0 resets the attributes and both colours
    #[verifier::external_body] fn attr_Reset(&mut self)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { fg: None, bg: None, attrs: plain() }) { unimplemented!() }
    #[verifier::external_body] fn attr_Bold(&mut self)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { attrs: TextAttributes { bold: true, ..old(self).style@.attrs }, ..old(self).style@ }) { unimplemented!() }
    #[verifier::external_body] fn attr_Dim(&mut self)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { attrs: TextAttributes { dim: true, ..old(self).style@.attrs }, ..old(self).style@ }) { unimplemented!() }
    #[verifier::external_body] fn attr_Italic(&mut self)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { attrs: TextAttributes { italic: true, ..old(self).style@.attrs }, ..old(self).style@ }) { unimplemented!() }
    #[verifier::external_body] fn attr_Underlined(&mut self)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { attrs: TextAttributes { underline: true, ..old(self).style@.attrs }, ..old(self).style@ }) { unimplemented!() }
    #[verifier::external_body] fn attr_CrossedOut(&mut self)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { attrs: TextAttributes { strike: true, ..old(self).style@.attrs }, ..old(self).style@ }) { unimplemented!() }
    #[verifier::external_body] fn attr_Reverse(&mut self)
        ensures final(self).cols == old(self).cols, final(self).cells == old(self).cells, final(self).at == old(self).at, final(self).style@ == (Style { attrs: TextAttributes { reverse: true, ..old(self).style@.attrs }, ..old(self).style@ }) { unimplemented!() }
    /// a grapheme is printed only where it does not run over the edge or the end of the screen
    #[verifier::external_body] fn print(&mut self, s: &String)
        requires old(self).ok(), 1 <= dw(s@) <= 2, 0 <= old(self).at@, old(self).at@ + dw(s@) <= old(self).cells@.len(), old(self).at@ % old(self).cols@ + dw(s@) <= old(self).cols@,
        ensures final(self).cols == old(self).cols, final(self).style == old(self).style, final(self).at@ == old(self).at@ + dw(s@),
            final(self).cells@ == printed(old(self).cells@, old(self).at@, s@, dw(s@), old(self).style@) { unimplemented!() }
}
/// cells a terminal uses for a grapheme
pub uninterp spec fn dw(g: Seq<char>) -> int;
#[verifier::external_body] proof fn axiom_blank_width() ensures dw(seq![' ']) == 1 {}

// ---------------------------------------------------------------- the frame a canvas holds
pub open spec fn style_of(c: Cell) -> Style { Style { fg: c.fg, bg: c.bg, attrs: c.attrs } }
pub open spec fn shown(c: Cell) -> Shown { if c.continuation { Shown::Right } else { Shown::Head { symbol: c.symbol@, width: c.width as int, style: style_of(c) } } }
pub open spec fn same_cell(a: Cell, b: Cell) -> bool { a.symbol@ == b.symbol@ && a.width == b.width && a.continuation == b.continuation && a.fg == b.fg && a.bg == b.bg && a.attrs == b.attrs }
pub open spec fn frame(c: Seq<Cell>) -> Seq<Shown> { Seq::new(c.len(), |i: int| shown(c[i])) }
/// what drawing leaves in the cells (C02): the width is that of the grapheme, 0 for a continuation, no reset marker
pub open spec fn cell_ok(c: Cell) -> bool {
    (c.continuation ==> c.width == 0) && (!c.continuation ==> 1 <= c.width <= 2 && c.width == dw(c.symbol@)) && c.fg != Some(Color::Reset) && c.bg != Some(Color::Reset)
}
pub open spec fn cells_ok(c: Seq<Cell>) -> bool { forall|i: int| 0 <= i < c.len() ==> cell_ok(#[trigger] c[i]) }
/// two-cell graphemes are whole and stay on their row
pub open spec fn in_row(c: Seq<Cell>, w: int) -> bool { forall|i: int| 0 <= i < c.len() && wide(shown(#[trigger] c[i])) ==> i % w + 2 <= w }
pub open spec fn whole(c: Seq<Cell>, w: int, i: int) -> bool {
    if c[i].continuation { i % w > 0 && c[i - 1].width == 2 } else if c[i].width == 2 { i % w + 1 < w && c[i + 1].continuation } else { true }
}
/// the drawn frame, with the halves of partly overwritten graphemes blank
pub open spec fn tidy(c: Cell) -> Shown { Shown::Head { symbol: seq![' '], width: 1, style: style_of(c) } }
pub open spec fn wanted(c: Seq<Cell>, w: int) -> Seq<Shown> { Seq::new(c.len(), |i: int| if whole(c, w, i) { shown(c[i]) } else { tidy(c[i]) }) }
impl Canvas {
    pub open spec fn w(&self) -> int { self.size.width as int }
    pub open spec fn wf(&self) -> bool {
        self.cells@.len() == self.w() * self.size.height && self.prev_cells@.len() == self.cells@.len() && self.w() > 0 && cells_ok(self.cells@)
    }
    /// the previous frame is on the terminal
    pub open spec fn synced(&self, t: &Term) -> bool { cells_ok(self.prev_cells@) && t.cells@ == frame(self.prev_cells@) }
}
pub open spec fn tidied(o: &Canvas, s: &Canvas) -> bool {
    &&& s.size == o.size && s.prev_cells == o.prev_cells && s.first_flush == o.first_flush && s.clip_stack == o.clip_stack && s.wf()
    &&& frame(s.cells@) == wanted(o.cells@, o.w()) && paired(frame(s.cells@)) && in_row(s.cells@, s.w())
}

// ---------------------------------------------------------------- trusted helpers
#[verifier::external_body] fn owned(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
#[verifier::external_body] fn cell_eq(a: &Cell, b: &Cell) -> (r: bool) ensures r == same_cell(*a, *b) { unimplemented!() }
fn color_ne(a: Option<Color>, b: Option<Color>) -> (r: bool) ensures r == (a != b) { match (a, b) { (None, None) => false, (Some(x), Some(y)) => x != y, _ => true } }
fn attrs_ne(a: TextAttributes, b: TextAttributes) -> (r: bool) ensures r == (a != b) { a != b }
fn default_attrs() -> (r: TextAttributes) ensures r == plain() { TextAttributes { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } }
fn or_reset(c: Option<Color>) -> (r: Color) ensures r == match c { Some(c) => c, None => Color::Reset } { match c { Some(c) => c, None => Color::Reset } }

proof fn lemma_next_in_row(i: int, w: int)
    requires 0 <= i, 0 < w, i % w + 1 < w,
    ensures (i + 1) % w == i % w + 1,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert(i + 1 == (i / w) * w + (i % w + 1)) by (nonlinear_arith) requires i == w * (i / w) + i % w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + 1, w, i / w, i % w + 1);
}
proof fn lemma_prev_in_row(i: int, w: int)
    requires 0 <= i, 0 < w, i % w > 0,
    ensures i >= 1, (i - 1) % w == i % w - 1,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert(i >= i % w) by (nonlinear_arith) requires i == w * (i / w) + i % w, i / w >= 0, w > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i - 1, w, i / w, i % w - 1);
}
proof fn lemma_row_end(i: int, w: int, h: int)
    requires 0 <= i < w * h, 0 < w, i % w + 1 < w,
    ensures i + 1 < w * h,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert(i / w < h) by (nonlinear_arith) requires i == w * (i / w) + i % w, 0 <= i % w, i < w * h, w > 0;
    assert(i + 1 < w * h) by (nonlinear_arith) requires i == w * (i / w) + i % w, i % w + 1 < w, i / w < h, w > 0;
}

// ---------------------------------------------------------------- functions under contract
impl Canvas {
//@ extract crates/textual/src/canvas.rs fn Canvas::blank_split_graphemes
//@ nloops 1
//@ sub " "\.to_string\(\) ==> owned(" ")
//@ sub? 0\.\.self\.cells\.len\(\) ==> 0..cell_count
//@ contract
    requires old(self).wf(),
    ensures tidied(old(self), final(self)),
//@ start
    let ghost o = *self; let ghost w = self.w(); let cell_count = self.cells.len();
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); axiom_blank_width(); }
//@ loop 1
    invariant cell_count == o.cells@.len(), self.size == o.size, self.prev_cells == o.prev_cells, self.first_flush == o.first_flush, self.clip_stack == o.clip_stack, self.wf(), o.wf(), w == o.w(), width == w, " "@ == seq![' '], dw(seq![' ']) == 1, self.cells@.len() == o.cells@.len(),
        forall|j: int| i <= j < o.cells@.len() ==> #[trigger] self.cells@[j] == o.cells@[j],
        forall|j: int| 0 <= j < i ==> shown(#[trigger] self.cells@[j]) == if whole(o.cells@, w, j) { shown(o.cells@[j]) } else { tidy(o.cells@[j]) },
        forall|j: int| 0 <= j < i ==> (#[trigger] self.cells@[j]).width == if whole(o.cells@, w, j) { o.cells@[j].width } else { 1u8 },
//@ loop_start 1
    proof {
        if i % width > 0 { lemma_prev_in_row(i as int, w); }
        if i % width + 1 < width { lemma_row_end(i as int, w, self.size.height as int); }
        if i % width > 0 { lemma_next_in_row(i - 1, w); }
        if o.cells@[i as int].continuation && i % width > 0 { assert(self.cells@[i - 1].width == (if whole(o.cells@, w, i - 1) { o.cells@[i - 1].width } else { 1u8 }));
            assert(cell_ok(o.cells@[i - 1]));
            if o.cells@[i - 1].width == 2 { assert(whole(o.cells@, w, i - 1)); } }
    }
//@ after_loop 1
    proof {
        assert(frame(self.cells@) =~= wanted(o.cells@, w));
        let t = frame(self.cells@);
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies (t[i] is Head ==> 1 <= t[i]->width <= 2) && (wide(t[i]) ==> i + 1 < t.len() && t[i + 1] is Right) && (t[i] is Right ==> i > 0 && wide(t[i - 1])) by {
            assert(cell_ok(o.cells@[i]));
            if wide(t[i]) { lemma_row_end(i, w, self.size.height as int); lemma_next_in_row(i, w); assert(o.cells@[i + 1].continuation); assert(whole(o.cells@, w, i + 1)); assert(t[i + 1] is Right); }
            if t[i] is Right { lemma_prev_in_row(i, w); assert(cell_ok(o.cells@[i - 1])); assert(whole(o.cells@, w, i)); assert(o.cells@[i - 1].width == 2); assert(whole(o.cells@, w, i - 1)); assert(wide(t[i - 1])); }
        }
        assert forall|i: int| 0 <= i < self.cells@.len() && wide(shown(#[trigger] self.cells@[i])) implies i % w + 2 <= w by { assert(cell_ok(o.cells@[i])); assert(whole(o.cells@, w, i)); }
    }
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::emit_cell
//@ sub SIG:<W: Write> ==> 
//@ sub SIG:&mut W ==> &mut Term
//@ sub SIG:-> std::io::Result<\(\)> ==> 
//@ sub execute!\(out, SetAttribute\(Attribute::(\w+)\)\)\?; ==> out.attr_\1();
//@ sub execute!\(out, Set(Fore|Back)groundColor\((\w+)\)\)\?; ==> out.set_\1(\2);
//@ sub write!\(out, "\{\}", cell\.symbol\)\?; ==> out.print(&cell.symbol);
//@ sub Ok\(\(\)\) ==> 
//@ sub cell\.attrs != \*last_attrs ==> attrs_ne(cell.attrs, *last_attrs)
//@ sub cell\.(fg|bg) != \*last_(fg|bg) ==> color_ne(cell.\1, *last_\2)
//@ sub cell\.(fg|bg)\.unwrap_or\(Color::Reset\) ==> or_reset(cell.\1)
//@ nloops 0
//@ contract
    requires old(out).ok(), old(out).style@ == (Style { fg: *old(last_fg), bg: *old(last_bg), attrs: *old(last_attrs) }), cell_ok(*cell), !cell.continuation,
        0 <= old(out).at@, old(out).at@ + cell.width <= old(out).cells@.len(), old(out).at@ % old(out).cols@ + cell.width <= old(out).cols@,
    ensures final(out).style@ == style_of(*cell), final(out).style@ == (Style { fg: *final(last_fg), bg: *final(last_bg), attrs: *final(last_attrs) }), final(out).cols == old(out).cols,
        final(out).at@ == old(out).at@ + cell.width, final(out).cells@ == printed(old(out).cells@, old(out).at@, cell.symbol@, cell.width as int, style_of(*cell)),
//@ end
}

/// positions below `i` show the frame, and so does position i if it is the right half of the grapheme before it
pub open spec fn shows_to(t: Seq<Shown>, f: Seq<Shown>, i: int) -> bool {
    t.len() == f.len() && (forall|j: int| #![trigger t[j]] 0 <= j < i && j < f.len() ==> t[j] == f[j]) && (0 < i < f.len() && wide(f[i - 1]) ==> t[i] == f[i])
}
/// from i on, what differs from the previous frame is going to be drawn
pub open spec fn pending(t: Seq<Shown>, f: Seq<Shown>, c: Seq<Cell>, p: Seq<Cell>, i: int) -> bool {
    forall|j: int| #![trigger t[j]] i <= j < f.len() ==> t[j] == shown(p[j]) || (!same_cell(c[j], p[j]) && !c[j].continuation) || (j == i && i > 0 && wide(f[i - 1]))
}
pub open spec fn cursor_at(cx: int, cy: int, w: int, at: int) -> bool { cx >= 0 && cy >= 0 ==> cx < w && at == cy * w + cx }
proof fn lemma_pos(i: int, w: int, h: int)
    requires 0 <= i < w * h, 0 < w <= 0xffff, 0 <= h <= 0xffff,
    ensures 0 <= i % w < w, 0 <= i / w < h, (i / w) * w + i % w == i,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert(i / w < h) by (nonlinear_arith) requires i == w * (i / w) + i % w, 0 <= i % w, i < w * h, w > 0;
    assert(i / w >= 0) by (nonlinear_arith) requires i >= 0, w > 0;
    assert((i / w) * w == w * (i / w)) by (nonlinear_arith);
}
proof fn lemma_wrap(y: int, x: int, n: int, w: int)
    requires x + n == w,
    ensures (y + 1) * w == y * w + x + n,
{ assert((y + 1) * w == y * w + w) by (nonlinear_arith); }
impl Canvas {
//@ extract crates/textual/src/canvas.rs fn Canvas::flush_full
//@ sub SIG:<W: Write> ==> 
//@ sub SIG:&mut W ==> &mut Term
//@ sub SIG:-> std::io::Result<\(\)> ==> 
//@ sub execute!\(out, SetAttribute\(Attribute::(\w+)\)\)\?; ==> out.attr_\1();
//@ sub execute!\(out, Set(Fore|Back)groundColor\(Color::Reset\)\)\?; ==> out.set_\1(Color::Reset);
//@ sub execute!\(out, cursor::MoveTo\((\w+), (\w+)\)\)\?; ==> out.move_to(\1, \2);
//@ sub (self\.emit_cell\([^;]*\))\?; ==> \1;
//@ sub Ok\(\(\)\) ==> 
//@ sub TextAttributes::default\(\) ==> default_attrs()
//@ sub for \(i, cell\) in self\.cells\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..self.cells.len() { let cell = &self.cells[i];
//@ nloops 1
//@ contract
    requires self.wf(), paired(frame(self.cells@)), in_row(self.cells@, self.w()), old(out).ok(), old(out).cols@ == self.w(), old(out).cells@.len() == self.cells@.len(),
    ensures final(out).cells@ == frame(self.cells@), final(out).cols == old(out).cols,
//@ start
    let ghost f = frame(self.cells@); let ghost w = self.w(); let ghost gc = self.cells@;
//@ loop 1
    invariant self.wf(), f == frame(self.cells@), gc == self.cells@, paired(f), in_row(self.cells@, self.w()), w == self.w(), width == w, out.ok(), out.cols@ == w, out.cells@.len() == self.cells@.len(), out.cols == old(out).cols,
        shows_to(out.cells@, f, i as int), out.style@ == (Style { fg: last_fg, bg: last_bg, attrs: last_attrs }), cursor_at(cursor_x as int, cursor_y as int, w, out.at@), -1 <= cursor_y <= 0x10000, 
//@ loop_start 1
    let ghost t0 = out.cells@;
    proof { lemma_pos(i as int, w, self.size.height as int); assert(f[i as int] == shown(gc[i as int])); assert(cell_ok(gc[i as int])); if i > 0 { assert(f[i - 1] == shown(gc[i - 1])); }
        lemma_step(t0, f, i as int, gc[i as int].symbol@, gc[i as int].width as int, style_of(gc[i as int]));
        if i % width + gc[i as int].width == w { lemma_wrap(i as int / w, i as int % w, gc[i as int].width as int, w); }
        if !gc[i as int].continuation { if gc[i as int].width == 2 { assert(wide(f[i as int])); assert(i + 1 < f.len()); } lemma_printed_paired(t0, i as int, gc[i as int].symbol@, gc[i as int].width as int, style_of(gc[i as int])); } }
//@ after_loop 1
    proof { assert(out.cells@ =~= f); }
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::flush_diff
//@ sub SIG:<W: Write> ==> 
//@ sub SIG:&mut W ==> &mut Term
//@ sub SIG:-> std::io::Result<\(\)> ==> 
//@ sub execute!\(out, SetAttribute\(Attribute::(\w+)\)\)\?; ==> out.attr_\1();
//@ sub execute!\(out, Set(Fore|Back)groundColor\(Color::Reset\)\)\?; ==> out.set_\1(Color::Reset);
//@ sub execute!\(out, cursor::MoveTo\((\w+), (\w+)\)\)\?; ==> out.move_to(\1, \2);
//@ sub (self\.emit_cell\([^;]*\))\?; ==> \1;
//@ sub Ok\(\(\)\) ==> 
//@ sub TextAttributes::default\(\) ==> default_attrs()
//@ sub for \(i, \(cell, prev\)\) in self\.cells\.iter\(\)\.zip\(self\.prev_cells\.iter\(\)\)\.enumerate\(\) \{ ==> for i in 0..self.cells.len() { let cell = &self.cells[i]; let prev = &self.prev_cells[i];
//@ sub cell == prev ==> cell_eq(cell, prev)
//@ nloops 1
//@ contract
    requires self.wf(), paired(frame(self.cells@)), in_row(self.cells@, self.w()), old(out).ok(), old(out).cols@ == self.w(), self.synced(old(out)),
    ensures final(out).cells@ == frame(self.cells@), final(out).cols == old(out).cols,
//@ start
    let ghost f = frame(self.cells@); let ghost w = self.w(); let ghost gc = self.cells@; let ghost gp = self.prev_cells@;
//@ loop 1
    invariant self.wf(), f == frame(self.cells@), gc == self.cells@, gp == self.prev_cells@, paired(f), paired(frame(gp)), in_row(self.cells@, self.w()), w == self.w(), width == w, out.ok(), out.cols@ == w, out.cells@.len() == self.cells@.len(), out.cols == old(out).cols, cells_ok(gp), gp.len() == gc.len(),
        shows_to(out.cells@, f, i as int), pending(out.cells@, f, gc, gp, i as int), out.style@ == (Style { fg: last_fg, bg: last_bg, attrs: last_attrs }), cursor_at(cursor_x as int, cursor_y as int, w, out.at@), -1 <= cursor_y <= 0x10000, cursor_x >= 0 || cursor_x == -1, cursor_x >= 0 ==> cursor_y >= 0,
//@ loop_start 1
    let ghost t0 = out.cells@;
    proof { lemma_pos(i as int, w, self.size.height as int); assert(f[i as int] == shown(gc[i as int])); assert(cell_ok(gc[i as int])); assert(cell_ok(gp[i as int])); if i > 0 { assert(f[i - 1] == shown(gc[i - 1])); }
        lemma_step(t0, f, i as int, gc[i as int].symbol@, gc[i as int].width as int, style_of(gc[i as int]));
        lemma_pending_step(t0, f, gc, gp, i as int);
        if i % width + gc[i as int].width == w { lemma_wrap(i as int / w, i as int % w, gc[i as int].width as int, w); }
        if !gc[i as int].continuation { if gc[i as int].width == 2 { assert(wide(f[i as int])); assert(i + 1 < f.len()); } lemma_printed_paired(t0, i as int, gc[i as int].symbol@, gc[i as int].width as int, style_of(gc[i as int])); } }
//@ after_loop 1
    proof { assert(out.cells@ =~= f); }
//@ end

//@ extract crates/textual/src/canvas.rs fn Canvas::flush
//@ sub SIG:&mut self ==> &mut self, out: &mut Term
//@ sub SIG:-> std::io::Result<\(\)> ==> 
//@ sub let stdout = std::io::stdout\(\);\s*let mut out = BufWriter::with_capacity\(\d+, stdout\.lock\(\)\); ==> 
//@ sub self\.(flush_\w+)\(&mut out\)\?; ==> self.\1(out);
//@ sub out\.flush\(\)\?; ==> 
//@ sub Ok\(\(\)\) ==> 
//@ nloops 0
//@ contract
    requires old(self).wf(), old(out).ok(), old(out).cols@ == old(self).w(), old(out).cells@.len() == old(self).cells@.len(), !old(self).first_flush ==> old(self).synced(old(out)), cells_ok(old(self).prev_cells@),
    ensures final(out).cells@ == wanted(old(self).cells@, old(self).w()), final(self).size == old(self).size, final(self).clip_stack == old(self).clip_stack,
        final(self).wf(), final(out).ok(), final(out).cols == old(out).cols, !final(self).first_flush, final(self).synced(final(out)),
//@ end
}
/// one grapheme printed, or a right half passed over
proof fn lemma_step(t: Seq<Shown>, f: Seq<Shown>, i: int, symbol: Seq<char>, n: int, st: Style)
    requires paired(t), paired(f), 0 <= i < f.len(), shows_to(t, f, i), f[i] is Head ==> f[i] == (Shown::Head { symbol, width: n, style: st }),
    ensures f[i] is Head ==> shows_to(printed(t, i, symbol, n, st), f, i + 1), f[i] is Right ==> shows_to(t, f, i + 1),
{
    if f[i] is Head {
        let u = printed(t, i, symbol, n, st);
        if i > 0 && t[i] is Right { assert(wide(t[i - 1])); assert(t[i - 1] == f[i - 1]); assert(f[i] is Right); }
        if wide(f[i]) { assert(f[i + 1] is Right); }
        assert forall|j: int| #![trigger u[j]] 0 <= j < i + 1 && j < f.len() implies u[j] == f[j] by { assert(j < i ==> t[j] == f[j]); }
    } else {
        assert(wide(f[i - 1])); assert(t[i] == f[i]);
        assert forall|j: int| #![trigger t[j]] 0 <= j < i + 1 && j < f.len() implies t[j] == f[j] by { assert(j < i ==> t[j] == f[j]); }
    }
}
proof fn lemma_pending_step(t: Seq<Shown>, f: Seq<Shown>, c: Seq<Cell>, p: Seq<Cell>, i: int)
    requires paired(t), paired(f), paired(frame(p)), f == frame(c), c.len() == p.len(), 0 <= i < f.len(), shows_to(t, f, i), pending(t, f, c, p, i), cells_ok(c), cells_ok(p),
    ensures
        same_cell(c[i], p[i]) ==> shows_to(t, f, i + 1) && pending(t, f, c, p, i + 1),
        c[i].continuation ==> pending(t, f, c, p, i + 1),
        !c[i].continuation ==> pending(printed(t, i, c[i].symbol@, c[i].width as int, style_of(c[i])), f, c, p, i + 1),
{
    assert(f[i] == shown(c[i])); assert(frame(p)[i] == shown(p[i]));
    assert(t[i] == t[i]);
    if i + 1 < f.len() { assert(t[i + 1] == t[i + 1]); assert(f[i + 1] == shown(c[i + 1])); assert(frame(p)[i + 1] == shown(p[i + 1])); assert(cell_ok(c[i + 1])); }
    assert forall|j: int| #![trigger t[j]] i + 1 <= j < f.len() implies t[j] == shown(p[j]) || (!same_cell(c[j], p[j]) && !c[j].continuation) || (j == i + 1 && wide(f[i])) by { assert(t[j] == t[j]); }
    if same_cell(c[i], p[i]) {
        if i > 0 { assert(f[i - 1] == shown(c[i - 1])); }
        assert(t[i] == f[i]);
        if wide(f[i]) && i + 1 < f.len() { assert(wide(frame(p)[i])); assert(frame(p)[i + 1] is Right); assert(f[i + 1] is Right); assert(t[i + 1] == f[i + 1]); }
    }
    if !c[i].continuation {
        let n = c[i].width as int;
        let u = printed(t, i, c[i].symbol@, n, style_of(c[i]));
        assert forall|j: int| #![trigger u[j]] i + 1 <= j < f.len() implies u[j] == shown(p[j]) || (!same_cell(c[j], p[j]) && !c[j].continuation) || (j == i + 1 && wide(f[i])) by {
            assert(t[j] == t[j]); assert(f[j] == shown(c[j])); assert(frame(p)[j] == shown(p[j]));
            if j == i + n && t[j] is Right {
                // its left half was just overwritten, so it cannot be a right half in the frame
                if c[j].continuation { assert(wide(f[j - 1])); if n == 2 { assert(f[i + 1] is Right); } }
                if shown(p[j]) is Right { assert(!same_cell(c[j], p[j])); }
            }
        }
    }
}
}
