use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- the code's types
#[derive(Clone, Copy)]
pub struct RgbaColor { pub dummy: u8 }
fn same_colour(c: &RgbaColor) -> (r: RgbaColor) ensures r == *c { *c }
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Region
//@ end
#[verifier::external_body]
pub struct TextAttributes;
impl TextAttributes { #[verifier::external_body] fn default() -> TextAttributes { unimplemented!() } }
/// the last character put into a cell, with its colours
pub struct Look { pub ch: char, pub fg: Option<RgbaColor>, pub bg: Option<RgbaColor> }
/// what is where, if anything was put there
pub type Picture = spec_fn((int, int)) -> Option<Look>;
pub open spec fn put(m: Picture, x: int, y: int, l: Look) -> Picture { |p: (int, int)| if p == (x, y) { Some(l) } else { m(p) } }
#[verifier::external_body]
pub struct Canvas;
impl Canvas {
    pub uninterp spec fn m(&self) -> Picture;
    /// (clipping: C02)
    #[verifier::external_body]
    fn put_char(&mut self, x: i32, y: i32, c: char, fg: Option<RgbaColor>, bg: Option<RgbaColor>, attrs: TextAttributes)
        ensures final(self).m() == put(old(self).m(), x as int, y as int, Look { ch: c, fg, bg }) { unimplemented!() }
}
/// the table of box-drawing characters (its entries are searched natively)
pub uninterp spec fn box_char(q: Quad) -> Option<char>;
#[verifier::external_body]
fn get_box_char(q: Quad) -> (r: Option<char>) ensures r == box_char(q) { unimplemented!() }
pub
//@ extract crates/textual/src/box_drawing.rs type Quad
//@ end
pub
//@ extract crates/textual/src/keyline_canvas.rs struct KeylineCanvas
//@ sub (?m)^(\s*)(\w+): ==> \1pub \2:
//@ end

// ---------------------------------------------------------------- vocabulary
pub open spec fn mx(a: u8, b: u8) -> u8 { if a > b { a } else { b } }
pub open spec fn comb(a: Quad, b: Quad) -> Quad { (mx(a.0, b.0), mx(a.1, b.1), mx(a.2, b.2), mx(a.3, b.3)) }
/// every arm of a is at least as heavy as in b
pub open spec fn ge(a: Quad, b: Quad) -> bool { a.0 >= b.0 && a.1 >= b.1 && a.2 >= b.2 && a.3 >= b.3 }
pub open spec fn on(b: bool, lt: u8) -> u8 { if b { lt } else { 0u8 } }
impl KeylineCanvas {
    pub open spec fn wf(&self) -> bool { self.quads@.len() == self.width * self.height && self.width * self.height <= usize::MAX }
    pub open spec fn inside(&self, x: int, y: int) -> bool { 0 <= x < self.width && 0 <= y < self.height }
    pub open spec fn at(&self, x: int, y: int) -> Quad { self.quads@[y * self.width + x] }
    pub open spec fn same_frame(&self, o: &Self) -> bool { self.width == o.width && self.height == o.height && self.line_type == o.line_type && self.color == o.color && self.wf() }
}
/// what was there is still there, and nothing was added beyond `want`
pub open spec fn between(o: &KeylineCanvas, s: &KeylineCanvas, want: spec_fn(int, int) -> Quad) -> bool {
    &&& s.same_frame(o)
    &&& forall|x: int, y: int| #![trigger s.at(x, y)] s.inside(x, y) ==> ge(s.at(x, y), o.at(x, y)) && ge(comb(o.at(x, y), want(x, y)), s.at(x, y))
}
/// s grew from o
pub open spec fn grew(o: &KeylineCanvas, s: &KeylineCanvas) -> bool {
    &&& s.same_frame(o)
    &&& forall|x: int, y: int| #![trigger s.at(x, y)] s.inside(x, y) ==> ge(s.at(x, y), o.at(x, y))
}
/// exactly the wanted arms were added
pub open spec fn drawn(o: &KeylineCanvas, s: &KeylineCanvas, want: spec_fn(int, int) -> Quad) -> bool {
    &&& s.same_frame(o)
    &&& forall|x: int, y: int| #![trigger s.at(x, y)] s.inside(x, y) ==> s.at(x, y) == comb(o.at(x, y), want(x, y))
}
proof fn lemma_index(w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures 0 <= y * w + x < w * h,
{
    assert(y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
    assert(0 <= y * w + x) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
}
proof fn lemma_index_inj(w: int, x: int, y: int, a: int, b: int)
    requires 0 <= x < w, 0 <= y, 0 <= a < w, 0 <= b, y * w + x == b * w + a,
    ensures x == a, y == b,
{
    assert((y - b) * w == a - x) by (nonlinear_arith) requires y * w + x == b * w + a;
    assert(y == b) by (nonlinear_arith) requires (y - b) * w == a - x, 0 <= x < w, 0 <= a < w;
}

// ---------------------------------------------------------------- functions under contract
fn max_u8(a: u8, b: u8) -> (r: u8) ensures r == mx(a, b) { if a > b { a } else { b } }
//@ extract crates/textual/src/box_drawing.rs fn combine_quads
//@ ret r
//@ sub (\w+)\.(\d)\.max\( ==> max_u8(\1.\2, 
//@ nloops 0
//@ contract
    ensures r == comb(a, b),
//@ end

/// the picture with the first `rows` rows of lines over it, and `cols` cells of the next row
pub open spec fn lined(k: &KeylineCanvas, m: Picture, r: Region, rows: int, cols: int) -> Picture {
    |p: (int, int)| {
        let x = p.0 - r.x; let y = p.1 - r.y;
        if k.inside(x, y) && (y < rows || (y == rows && x < cols)) && k.at(x, y) != (0u8, 0u8, 0u8, 0u8) && box_char(k.at(x, y)).is_some() {
            Some(Look { ch: box_char(k.at(x, y)).unwrap(), fg: Some(k.color), bg: None })
        } else { m(p) }
    }
}
impl KeylineCanvas {
//@ extract crates/textual/src/keyline_canvas.rs fn KeylineCanvas::render
//@ nloops 2
//@ sub? self\.color\.clone\(\) ==> same_colour(&self.color)
//@ sub quad == \(0, 0, 0, 0\) ==> quad.0 == 0 && quad.1 == 0 && quad.2 == 0 && quad.3 == 0
//@ contract
    requires self.wf(), self.width <= i32::MAX, self.height <= i32::MAX, region.x + self.width <= i32::MAX, region.y + self.height <= i32::MAX,
    ensures final(canvas).m() == lined(self, old(canvas).m(), region, self.height as int, 0),
//@ start
    let ghost m0 = canvas.m();
    proof { assert(lined(self, m0, region, 0, 0) =~= m0); }
//@ loop 1
    invariant self.wf(), self.width <= i32::MAX, self.height <= i32::MAX, region.x + self.width <= i32::MAX, region.y + self.height <= i32::MAX,
        canvas.m() == lined(self, m0, region, y as int, 0),
//@ loop 2
    invariant self.wf(), self.width <= i32::MAX, self.height <= i32::MAX, region.x + self.width <= i32::MAX, region.y + self.height <= i32::MAX,
        0 <= y < self.height, canvas.m() == lined(self, m0, region, y as int, x as int),
//@ loop_start 2
    let ghost m1 = canvas.m();
    proof {
        let q = self.at(x as int, y as int);
        let skip = q == (0u8, 0u8, 0u8, 0u8) || box_char(q).is_none();
        if skip { assert(lined(self, m0, region, y as int, x + 1) =~= m1); }
        else { assert(lined(self, m0, region, y as int, x + 1) =~= put(m1, region.x + x, region.y + y, Look { ch: box_char(q).unwrap(), fg: Some(self.color), bg: None })); }
    }
//@ after_loop 2
    proof { assert(canvas.m() =~= lined(self, m0, region, y + 1, 0)); }
//@ end

//@ extract crates/textual/src/keyline_canvas.rs fn KeylineCanvas::new
//@ ret r
//@ nloops 0
//@ sub vec!\[\(0, 0, 0, 0\); width \* height\] ==> blank(width * height)
//@ contract
    requires width * height <= usize::MAX,
    ensures r.width == width, r.height == height, r.line_type == line_type, r.color == color, r.wf(),
        forall|x: int, y: int| r.inside(x, y) ==> #[trigger] r.at(x, y) == (0u8, 0u8, 0u8, 0u8),
//@ start
    proof {
        assert forall|x: int, y: int| #![trigger y * width + x] 0 <= x < width && 0 <= y < height implies 0 <= y * width + x < width * height by { lemma_index(width as int, height as int, x, y); }
    }
//@ end

//@ extract crates/textual/src/keyline_canvas.rs fn KeylineCanvas::get
//@ ret r
//@ nloops 0
//@ contract
    requires self.wf(),
    ensures r == if self.inside(x as int, y as int) { Some(self.at(x as int, y as int)) } else { None },
//@ start
    proof { if self.inside(x as int, y as int) { lemma_index(self.width as int, self.height as int, x as int, y as int); assert(0 <= y * self.width) by (nonlinear_arith); } }
//@ end

//@ extract crates/textual/src/keyline_canvas.rs fn KeylineCanvas::set
//@ nloops 0
//@ contract
    requires old(self).wf(),
    ensures final(self).same_frame(old(self)), grew(old(self), final(self)),
        forall|a: int, b: int| #![trigger final(self).at(a, b)] final(self).inside(a, b) ==>
            final(self).at(a, b) == if a == x && b == y { comb(old(self).at(a, b), quad) } else { old(self).at(a, b) },
//@ start
    let ghost o = *self;
    proof {
        if self.inside(x as int, y as int) { lemma_index(self.width as int, self.height as int, x as int, y as int); assert(0 <= y * self.width) by (nonlinear_arith); }
        assert forall|a: int, b: int| #![trigger self.at(a, b)] self.inside(a, b) implies 0 <= b * self.width + a < self.quads@.len() && (b * self.width + a == y * self.width + x && x < self.width ==> a == x && b == y) by {
            lemma_index(self.width as int, self.height as int, a, b);
            if b * self.width + a == y * self.width + x && x < self.width { lemma_index_inj(self.width as int, x as int, y as int, a, b); }
        }
        assert forall|a: int, b: int| #![trigger o.quads@[b * o.width + a]] o.inside(a, b) implies 0 <= b * o.width + a < o.quads@.len() && (b * o.width + a == y * o.width + x && x < o.width ==> a == x && b == y) by {
            assert(self.at(a, b) == o.at(a, b));
        }
    }
//@ end
}

// ---------------------------------------------------------------- boxes
/// the outline of a box, arm by arm
pub open spec fn box_want(x: int, y: int, w: int, h: int, lt: u8) -> spec_fn(int, int) -> Quad {
    |a: int, b: int| {
        let hline = b == y || b == y + h - 1; let vline = a == x || a == x + w - 1;
        (on(vline && y < b <= y + h - 1, lt), on(hline && x <= a < x + w - 1, lt), on(vline && y <= b < y + h - 1, lt), on(hline && x < a <= x + w - 1, lt))
    }
}
/// nothing outside the box changes
pub open spec fn only_in(o: &KeylineCanvas, s: &KeylineCanvas, x: int, y: int, w: int, h: int) -> bool {
    &&& s.same_frame(o)
    &&& forall|a: int, b: int| #![trigger s.at(a, b)] s.inside(a, b) && !(x <= a < x + w && y <= b < y + h) ==> s.at(a, b) == o.at(a, b)
}
impl KeylineCanvas {
//@ extract crates/textual/src/keyline_canvas.rs fn KeylineCanvas::add_widget_box
//@ nloops 4
//@ contract
    requires old(self).wf(), x + width <= usize::MAX, y + height <= usize::MAX,
    ensures only_in(old(self), final(self), x as int, y as int, width as int, height as int),
        grew(old(self), final(self)),
        width >= 2 && height >= 2 ==> drawn(old(self), final(self), box_want(x as int, y as int, width as int, height as int, old(self).line_type)),
//@ start
    let ghost o = *self; let ghost lt = self.line_type;
    let ghost want = box_want(x as int, y as int, width as int, height as int, self.line_type);
    let ghost (gx, gy, gw, gh) = (x as int, y as int, width as int, height as int);
//@ loop 1
    invariant width > 0, height > 0, lt == o.line_type, x + width <= usize::MAX, y + height <= usize::MAX, grew(&o, self), only_in(&o, self, x as int, y as int, width as int, height as int),
        want == box_want(x as int, y as int, width as int, height as int, lt),
        width >= 2 && height >= 2 ==> between(&o, self, want) && row_done(self, want, y as int, x as int, x + i),
//@ loop 2
    invariant width > 0, height > 0, lt == o.line_type, x + width <= usize::MAX, y + height <= usize::MAX, grew(&o, self), only_in(&o, self, x as int, y as int, width as int, height as int),
        want == box_want(x as int, y as int, width as int, height as int, lt),
        width >= 2 && height >= 2 ==> between(&o, self, want) && row_done(self, want, y as int, x as int, x + width) && col_done(self, want, x as int, y as int, y + j),
//@ loop 3
    invariant width > 0, height > 0, lt == o.line_type, x + width <= usize::MAX, y + height <= usize::MAX, grew(&o, self), only_in(&o, self, x as int, y as int, width as int, height as int), width > 1,
        want == box_want(x as int, y as int, width as int, height as int, lt),
        width >= 2 && height >= 2 ==> between(&o, self, want) && row_done(self, want, y as int, x as int, x + width) && col_done(self, want, x as int, y as int, y + height - 1) && col_done(self, want, x + width - 1, y as int, y + j),
//@ loop 4
    invariant width > 0, height > 0, lt == o.line_type, x + width <= usize::MAX, y + height <= usize::MAX, grew(&o, self), only_in(&o, self, x as int, y as int, width as int, height as int), height > 1,
        want == box_want(x as int, y as int, width as int, height as int, lt),
        width >= 2 && height >= 2 ==> between(&o, self, want) && row_done(self, want, y as int, x as int, x + width) && col_done(self, want, x as int, y as int, y + height - 1) && col_done(self, want, x + width - 1, y as int, y + height - 1)
            && row_done(self, want, y + height - 1, x as int, x + i),
//@ end
}
/// the wanted arms are there along a stretch of a row / column
pub open spec fn row_done(s: &KeylineCanvas, want: spec_fn(int, int) -> Quad, y: int, from: int, to: int) -> bool {
    forall|a: int| #![trigger s.at(a, y)] s.inside(a, y) && from <= a < to ==> ge(s.at(a, y), want(a, y))
}
pub open spec fn col_done(s: &KeylineCanvas, want: spec_fn(int, int) -> Quad, x: int, from: int, to: int) -> bool {
    forall|b: int| #![trigger s.at(x, b)] s.inside(x, b) && from <= b < to ==> ge(s.at(x, b), want(x, b))
}

// ---------------------------------------------------------------- grids
pub open spec fn increasing(p: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] < p[j] }
pub open spec fn has(p: Seq<usize>, v: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == v }
/// a table with a line at every position, arm by arm
pub open spec fn grid_want(cols: Seq<usize>, rows: Seq<usize>, lt: u8) -> spec_fn(int, int) -> Quad {
    |a: int, b: int| (on(has(cols, a) && rows[0] < b <= rows.last(), lt), on(has(rows, b) && cols[0] <= a < cols.last(), lt),
        on(has(cols, a) && rows[0] <= b < rows.last(), lt), on(has(rows, b) && cols[0] < a <= cols.last(), lt))
}
pub open spec fn hq(cols: Seq<usize>, lt: u8, a: int) -> Quad { (0, on(a < cols.last(), lt), 0, on(a > cols[0], lt)) }
pub open spec fn vq(rows: Seq<usize>, lt: u8, b: int) -> Quad { (on(b > rows[0], lt), 0, on(b < rows.last(), lt), 0) }
pub open spec fn hdone(s: &KeylineCanvas, cols: Seq<usize>, lt: u8, y: int, to: int) -> bool {
    forall|a: int| #![trigger s.at(a, y)] s.inside(a, y) && cols[0] <= a < to ==> ge(s.at(a, y), hq(cols, lt, a))
}
pub open spec fn vdone(s: &KeylineCanvas, rows: Seq<usize>, lt: u8, x: int, to: int) -> bool {
    forall|b: int| #![trigger s.at(x, b)] s.inside(x, b) && rows[0] <= b < to ==> ge(s.at(x, b), vq(rows, lt, b))
}
/// the vertical arms where a column line crosses a row line
pub open spec fn jdone(s: &KeylineCanvas, cols: Seq<usize>, rows: Seq<usize>, lt: u8, r: int, c: int) -> bool {
    s.inside(cols[c] as int, rows[r] as int) ==> ge(s.at(cols[c] as int, rows[r] as int), vq(rows, lt, rows[r] as int))
}
pub open spec fn pos_or_end(p: Seq<usize>, i: int) -> int { if i < p.len() { p[i] as int } else { p.last() + 1 } }
fn min_us(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub open spec fn grid_in(cols: Seq<usize>, rows: Seq<usize>) -> bool {
    cols.len() >= 2 && rows.len() >= 2 && increasing(cols) && increasing(rows) && cols.last() < usize::MAX && rows.last() < usize::MAX
}
impl KeylineCanvas {
//@ extract crates/textual/src/keyline_canvas.rs fn KeylineCanvas::add_grid
//@ sub for \(row_idx, &y\) in row_positions\.iter\(\)\.enumerate\(\) \{ ==> for row_idx in 0..row_positions.len() { let y = row_positions[row_idx];
//@ sub for \(_col_idx, &x\) in col_positions\.iter\(\)\.enumerate\(\) \{ ==> for col_idx in 0..col_positions.len() { let x = col_positions[col_idx];
//@ sub (next_\w)\.min\( ==> min_us(\1, 
//@ nloops 6
//@ contract
    requires old(self).wf(), col_positions@.len() >= 2 && row_positions@.len() >= 2 ==> grid_in(col_positions@, row_positions@),
    ensures grew(old(self), final(self)),
        col_positions@.len() >= 2 && row_positions@.len() >= 2 ==> drawn(old(self), final(self), grid_want(col_positions@, row_positions@, old(self).line_type)),
        col_positions@.len() < 2 || row_positions@.len() < 2 ==> *final(self) == *old(self),
//@ start
    let ghost o = *self; let ghost cols = col_positions@; let ghost rows = row_positions@; let ghost glt = self.line_type;
    let ghost want = grid_want(cols, rows, self.line_type);
//@ loop 1
    invariant cols == col_positions@, rows == row_positions@, grid_in(cols, rows), want == grid_want(cols, rows, lt), lt == glt == o.line_type, last_col == cols.len() - 1, last_row == rows.len() - 1,
        between(&o, self, want),
        forall|r: int| 0 <= r < row_idx ==> hdone(self, cols, lt, #[trigger] rows[r] as int, cols.last() + 1),
        forall|r: int, c: int| #![trigger rows[r], cols[c]] 0 <= r < row_idx && 0 <= c < cols.len() ==> jdone(self, cols, rows, lt, r, c),
//@ loop 2
    invariant cols == col_positions@, rows == row_positions@, grid_in(cols, rows), want == grid_want(cols, rows, lt), lt == glt == o.line_type, last_col == cols.len() - 1, last_row == rows.len() - 1,
        between(&o, self, want), 0 <= row_idx < rows.len(), y == rows[row_idx as int], is_top == (row_idx == 0), is_bottom == (row_idx == last_row), y < self.height,
        forall|r: int| 0 <= r < row_idx ==> hdone(self, cols, lt, #[trigger] rows[r] as int, cols.last() + 1),
        forall|r: int, c: int| #![trigger rows[r], cols[c]] 0 <= r < row_idx && 0 <= c < cols.len() ==> jdone(self, cols, rows, lt, r, c),
        hdone(self, cols, lt, y as int, pos_or_end(cols, col_idx as int)),
        forall|c: int| #![trigger cols[c]] 0 <= c < col_idx ==> jdone(self, cols, rows, lt, row_idx as int, c),
//@ loop 3
    invariant cols == col_positions@, rows == row_positions@, grid_in(cols, rows), want == grid_want(cols, rows, lt), lt == glt == o.line_type, last_col == cols.len() - 1, last_row == rows.len() - 1,
        between(&o, self, want), 0 <= row_idx < rows.len(), y == rows[row_idx as int], y < self.height, 0 <= col_idx < last_col, x == cols[col_idx as int], next_x == cols[col_idx + 1],
        forall|r: int| 0 <= r < row_idx ==> hdone(self, cols, lt, #[trigger] rows[r] as int, cols.last() + 1),
        forall|r: int, c: int| #![trigger rows[r], cols[c]] 0 <= r < row_idx && 0 <= c < cols.len() ==> jdone(self, cols, rows, lt, r, c),
        hdone(self, cols, lt, y as int, fill_x as int),
        forall|c: int| #![trigger cols[c]] 0 <= c < col_idx + 1 ==> jdone(self, cols, rows, lt, row_idx as int, c),
//@ loop_start 3
    proof { assert(has(rows, y as int)); assert(cols[0] <= x) by { if col_idx > 0 { assert(cols[0] < cols[col_idx as int]); } }
        assert(next_x <= cols.last()) by { if col_idx + 1 < last_col { assert(cols[col_idx + 1] < cols[last_col as int]); } } }
//@ loop_start 2
    proof { assert(has(rows, y as int)); assert(has(cols, cols[col_idx as int] as int));
        if col_idx > 0 { assert(cols[0] < cols[col_idx as int]); } if col_idx < last_col { assert(cols[col_idx as int] < cols[last_col as int]); }
        if row_idx > 0 { assert(rows[0] < rows[row_idx as int]); } if row_idx < last_row { assert(rows[row_idx as int] < rows[last_row as int]); }
        assert(col_idx + 1 <= last_col ==> cols[col_idx as int] < cols[col_idx + 1]);
    }
//@ loop 4
    invariant cols == col_positions@, rows == row_positions@, grid_in(cols, rows), want == grid_want(cols, rows, lt), lt == glt == o.line_type, last_col == cols.len() - 1, last_row == rows.len() - 1,
        between(&o, self, want),
        forall|r: int| 0 <= r < rows.len() ==> hdone(self, cols, lt, #[trigger] rows[r] as int, cols.last() + 1),
        forall|r: int, c: int| #![trigger rows[r], cols[c]] 0 <= r < rows.len() && 0 <= c < cols.len() ==> jdone(self, cols, rows, lt, r, c),
        forall|c: int| 0 <= c < col_idx ==> vdone(self, rows, lt, #[trigger] cols[c] as int, rows.last() + 1),
//@ loop 5
    invariant cols == col_positions@, rows == row_positions@, grid_in(cols, rows), want == grid_want(cols, rows, lt), lt == glt == o.line_type, last_col == cols.len() - 1, last_row == rows.len() - 1,
        between(&o, self, want), 0 <= col_idx < cols.len(), x == cols[col_idx as int], x < self.width,
        forall|r: int| 0 <= r < rows.len() ==> hdone(self, cols, lt, #[trigger] rows[r] as int, cols.last() + 1),
        forall|r: int, c: int| #![trigger rows[r], cols[c]] 0 <= r < rows.len() && 0 <= c < cols.len() ==> jdone(self, cols, rows, lt, r, c),
        forall|c: int| 0 <= c < col_idx ==> vdone(self, rows, lt, #[trigger] cols[c] as int, rows.last() + 1),
        vdone(self, rows, lt, x as int, pos_or_end(rows, row_idx as int)),
//@ loop 6
    invariant cols == col_positions@, rows == row_positions@, grid_in(cols, rows), want == grid_want(cols, rows, lt), lt == glt == o.line_type, last_col == cols.len() - 1, last_row == rows.len() - 1,
        between(&o, self, want), 0 <= col_idx < cols.len(), x == cols[col_idx as int], x < self.width, 0 <= row_idx < last_row, y == rows[row_idx as int], next_y == rows[row_idx + 1],
        forall|r: int| 0 <= r < rows.len() ==> hdone(self, cols, lt, #[trigger] rows[r] as int, cols.last() + 1),
        forall|r: int, c: int| #![trigger rows[r], cols[c]] 0 <= r < rows.len() && 0 <= c < cols.len() ==> jdone(self, cols, rows, lt, r, c),
        forall|c: int| 0 <= c < col_idx ==> vdone(self, rows, lt, #[trigger] cols[c] as int, rows.last() + 1),
        vdone(self, rows, lt, x as int, fill_y as int),
//@ loop_start 6
    proof { assert(has(cols, x as int)); assert(rows[0] <= y) by { if row_idx > 0 { assert(rows[0] < rows[row_idx as int]); } }
        assert(next_y <= rows.last()) by { if row_idx + 1 < last_row { assert(rows[row_idx + 1] < rows[last_row as int]); } } }
//@ loop_start 5
    proof { assert(has(cols, x as int));
        if row_idx > 0 { assert(rows[0] < rows[row_idx as int]); } if row_idx < last_row { assert(rows[row_idx as int] < rows[last_row as int]); }
        assert(row_idx + 1 <= last_row ==> rows[row_idx as int] < rows[row_idx + 1]);
        assert(jdone(self, cols, rows, lt, row_idx as int, col_idx as int));
    }
//@ after_loop 4
    proof {
        assert forall|a: int, b: int| #![trigger self.at(a, b)] self.inside(a, b) implies self.at(a, b) == comb(o.at(a, b), want(a, b)) by {
            if has(rows, b) { let r = choose|r: int| 0 <= r < rows.len() && #[trigger] rows[r] == b; assert(hdone(self, cols, lt, rows[r] as int, cols.last() + 1)); }
            if has(cols, a) { let c = choose|c: int| 0 <= c < cols.len() && #[trigger] cols[c] == a; assert(vdone(self, rows, lt, cols[c] as int, rows.last() + 1)); }
        }
    }
//@ end
}

// ---------------------------------------------------------------- grids with spanning cells
pub open spec fn occ_of(occ: Seq<Vec<Option<usize>>>, r: int, c: int) -> Option<usize> { if 0 <= r < occ.len() && 0 <= c < occ[r]@.len() { occ[r]@[c] } else { None } }
pub open spec fn differ(occ: Seq<Vec<Option<usize>>>, r1: int, c1: int, r2: int, c2: int) -> bool { occ_of(occ, r1, c1) != occ_of(occ, r2, c2) }
/// is there a line at the r-th row boundary over column c (at the c-th column boundary beside row r)?
pub open spec fn hline(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, c: int, r: int) -> bool { r == 0 || r == rows.len() - 1 || differ(occ, r - 1, c, r, c) }
pub open spec fn vline(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, c: int, r: int) -> bool { c == 0 || c == cols.len() - 1 || differ(occ, r, c - 1, r, c) }
/// the cell (a, b) lies on that line, with an arm to the right/left (down/up)
pub open spec fn hpart(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, c: int, r: int, a: int, b: int, fwd: bool) -> bool {
    0 <= r < rows.len() && 0 <= c < cols.len() - 1 && rows[r] == b && hline(occ, cols, rows, c, r) && if fwd { cols[c] <= a < cols[c + 1] } else { cols[c] < a <= cols[c + 1] }
}
pub open spec fn vpart(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, c: int, r: int, a: int, b: int, fwd: bool) -> bool {
    0 <= c < cols.len() && 0 <= r < rows.len() - 1 && cols[c] == a && vline(occ, cols, rows, c, r) && if fwd { rows[r] <= b < rows[r + 1] } else { rows[r] < b <= rows[r + 1] }
}
pub open spec fn harm(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, a: int, b: int, fwd: bool) -> bool { exists|c: int, r: int| #[trigger] hpart(occ, cols, rows, c, r, a, b, fwd) }
pub open spec fn varm(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, a: int, b: int, fwd: bool) -> bool { exists|c: int, r: int| #[trigger] vpart(occ, cols, rows, c, r, a, b, fwd) }
pub open spec fn occ_want(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, lt: u8) -> spec_fn(int, int) -> Quad {
    |a: int, b: int| (on(varm(occ, cols, rows, a, b, false), lt), on(harm(occ, cols, rows, a, b, true), lt), on(varm(occ, cols, rows, a, b, true), lt), on(harm(occ, cols, rows, a, b, false), lt))
}
pub open spec fn hseg(s: &KeylineCanvas, cols: Seq<usize>, rows: Seq<usize>, lt: u8, c: int, r: int, to: int) -> bool {
    forall|a: int| #![trigger s.at(a, rows[r] as int)] s.inside(a, rows[r] as int) && cols[c] <= a < to ==> ge(s.at(a, rows[r] as int), (0u8, on(a < cols[c + 1], lt), 0u8, on(a > cols[c], lt)))
}
pub open spec fn vseg(s: &KeylineCanvas, cols: Seq<usize>, rows: Seq<usize>, lt: u8, c: int, r: int, to: int) -> bool {
    forall|b: int| #![trigger s.at(cols[c] as int, b)] s.inside(cols[c] as int, b) && rows[r] <= b < to ==> ge(s.at(cols[c] as int, b), (on(b > rows[r], lt), 0u8, on(b < rows[r + 1], lt), 0u8))
}
/// the track a position falls in
proof fn lemma_track(p: Seq<usize>, a: int, n: int) -> (c: int)
    requires increasing(p), 1 <= n < p.len(), p[0] <= a < p[n],
    ensures 0 <= c < n, p[c] <= a < p[c + 1],
    decreases n,
{
    if n == 1 || p[n - 1] <= a { n - 1 } else { lemma_track(p, a, n - 1) }
}
proof fn lemma_outer_h(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, a: int, r: int)
    requires grid_in(cols, rows), r == 0 || r == rows.len() - 1,
    ensures cols[0] <= a < cols.last() ==> harm(occ, cols, rows, a, rows[r] as int, true), cols[0] < a <= cols.last() ==> harm(occ, cols, rows, a, rows[r] as int, false),
{
    if cols[0] <= a < cols.last() { let c = lemma_track(cols, a, cols.len() - 1); assert(hpart(occ, cols, rows, c, r, a, rows[r] as int, true)); }
    if cols[0] < a <= cols.last() { let c = lemma_track(cols, a - 1, cols.len() - 1); assert(hpart(occ, cols, rows, c, r, a, rows[r] as int, false)); }
}
proof fn lemma_outer_v(occ: Seq<Vec<Option<usize>>>, cols: Seq<usize>, rows: Seq<usize>, b: int, c: int)
    requires grid_in(cols, rows), c == 0 || c == cols.len() - 1,
    ensures rows[0] <= b < rows.last() ==> varm(occ, cols, rows, cols[c] as int, b, true), rows[0] < b <= rows.last() ==> varm(occ, cols, rows, cols[c] as int, b, false),
{
    if rows[0] <= b < rows.last() { let r = lemma_track(rows, b, rows.len() - 1); assert(vpart(occ, cols, rows, c, r, cols[c] as int, b, true)); }
    if rows[0] < b <= rows.last() { let r = lemma_track(rows, b - 1, rows.len() - 1); assert(vpart(occ, cols, rows, c, r, cols[c] as int, b, false)); }
}
fn occ_at(occ: &[Vec<Option<usize>>], r: usize, c: usize) -> (v: Option<usize>) ensures v == occ_of(occ@, r as int, c as int) {
    if r < occ.len() { if c < occ[r].len() { occ[r][c] } else { None } } else { None }
}
fn opt_ne(a: Option<usize>, b: Option<usize>) -> (r: bool) ensures r == (a != b) {
    match (a, b) { (Some(x), Some(y)) => x != y, (None, None) => false, _ => true }
}
impl KeylineCanvas {
//@ extract crates/textual/src/keyline_canvas.rs fn KeylineCanvas::add_grid_with_occupancy
//@ sub \|r1: usize, c1: usize, r2: usize, c2: usize\| -> bool \{ ==> |r1: usize, c1: usize, r2: usize, c2: usize| -> (res: bool) ensures res == differ(cell_occupancy@, r1 as int, c1 as int, r2 as int, c2 as int) {
//@ sub cell_occupancy\s*\.get\((\w+)\)\s*\.and_then\(\|row\| row\.get\((\w+)\)\)\s*\.copied\(\)\s*\.flatten\(\) ==> occ_at(cell_occupancy, \1, \2)
//@ sub occ1 != occ2 ==> opt_ne(occ1, occ2)
//@ sub \((\w+) \+ 1\)\.min\( ==> min_us(\1 + 1, 
//@ sub 0\.\.=(\w+) ==> 0..\1 + 1
//@ nloops 12
//@ contract
    requires old(self).wf(), col_positions@.len() >= 2 && row_positions@.len() >= 2 ==> grid_in(col_positions@, row_positions@),
    ensures
        col_positions@.len() >= 2 && row_positions@.len() >= 2 ==> drawn(old(self), final(self), occ_want(cell_occupancy@, col_positions@, row_positions@, old(self).line_type)),
        col_positions@.len() < 2 || row_positions@.len() < 2 ==> *final(self) == *old(self),
//@ start
    let ghost o = *self; let ghost cols = col_positions@; let ghost rows = row_positions@; let ghost occ = cell_occupancy@; let ghost glt = self.line_type;
    let ghost want = occ_want(occ, cols, rows, self.line_type);
//@ loop 1
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), y_min < self.height, hdone(self, cols, lt, y_min as int, x as int),
//@ loop_start 1
    proof { lemma_outer_h(occ, cols, rows, x as int, 0); }
//@ loop 2
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), y_max < self.height, hdone(self, cols, lt, y_max as int, x as int),
//@ loop_start 2
    proof { lemma_outer_h(occ, cols, rows, x as int, rows.len() - 1); }
//@ loop 3
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), x_min < self.width, vdone(self, rows, lt, x_min as int, y as int),
//@ loop_start 3
    proof { lemma_outer_v(occ, cols, rows, y as int, 0); }
//@ loop 4
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), x_max < self.width, vdone(self, rows, lt, x_max as int, y as int),
//@ loop_start 4
    proof { lemma_outer_v(occ, cols, rows, y as int, cols.len() - 1); }
//@ loop 5
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int),
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < col_idx && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1),
//@ loop 6
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int), 1 <= col_idx < num_cols, x == cols[col_idx as int], x < self.width,
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < col_idx && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1),
        forall|r: int| #![trigger vline(occ, cols, rows, col_idx as int, r)] 0 <= r < row_idx && vline(occ, cols, rows, col_idx as int, r) ==> vseg(self, cols, rows, lt, col_idx as int, r, rows[r + 1] + 1),
//@ loop_start 6
    proof { assert(vline(occ, cols, rows, col_idx as int, row_idx as int) == differ(occ, row_idx as int, col_idx - 1, row_idx as int, col_idx as int)); assert(rows[row_idx as int] < rows[row_idx + 1]); if row_idx + 1 < num_rows { assert(rows[row_idx + 1] < rows[num_rows as int]); } }
//@ loop 7
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int), 1 <= col_idx < num_cols, x == cols[col_idx as int], x < self.width, 0 <= row_idx < num_rows, y_start == rows[row_idx as int], y_end == rows[row_idx + 1], y_start < y_end,
        vline(occ, cols, rows, col_idx as int, row_idx as int),
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < col_idx && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1),
        forall|r: int| #![trigger vline(occ, cols, rows, col_idx as int, r)] 0 <= r < row_idx && vline(occ, cols, rows, col_idx as int, r) ==> vseg(self, cols, rows, lt, col_idx as int, r, rows[r + 1] + 1),
        vseg(self, cols, rows, lt, col_idx as int, row_idx as int, y as int),
//@ loop_start 7
    proof {
        if y < y_end { assert(vpart(occ, cols, rows, col_idx as int, row_idx as int, x as int, y as int, true)); }
        if y > y_start { assert(vpart(occ, cols, rows, col_idx as int, row_idx as int, x as int, y as int, false)); }
    }
//@ loop 8
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < num_cols && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int),
        forall|c: int, r: int| #![trigger hline(occ, cols, rows, c, r)] 1 <= r < row_idx && 0 <= c < num_cols && hline(occ, cols, rows, c, r) ==> hseg(self, cols, rows, lt, c, r, cols[c + 1] + 1),
//@ loop 9
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < num_cols && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int), 1 <= row_idx < num_rows, y == rows[row_idx as int], y < self.height,
        forall|c: int, r: int| #![trigger hline(occ, cols, rows, c, r)] 1 <= r < row_idx && 0 <= c < num_cols && hline(occ, cols, rows, c, r) ==> hseg(self, cols, rows, lt, c, r, cols[c + 1] + 1),
        forall|c: int| #![trigger hline(occ, cols, rows, c, row_idx as int)] 0 <= c < col_idx && hline(occ, cols, rows, c, row_idx as int) ==> hseg(self, cols, rows, lt, c, row_idx as int, cols[c + 1] + 1),
//@ loop_start 9
    proof { assert(hline(occ, cols, rows, col_idx as int, row_idx as int) == differ(occ, row_idx - 1, col_idx as int, row_idx as int, col_idx as int)); assert(cols[col_idx as int] < cols[col_idx + 1]); if col_idx + 1 < num_cols { assert(cols[col_idx + 1] < cols[num_cols as int]); } }
//@ loop 10
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < num_cols && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int), 1 <= row_idx < num_rows, y == rows[row_idx as int], y < self.height, 0 <= col_idx < num_cols, x_start == cols[col_idx as int], x_end == cols[col_idx + 1], x_start < x_end,
        hline(occ, cols, rows, col_idx as int, row_idx as int),
        forall|c: int, r: int| #![trigger hline(occ, cols, rows, c, r)] 1 <= r < row_idx && 0 <= c < num_cols && hline(occ, cols, rows, c, r) ==> hseg(self, cols, rows, lt, c, r, cols[c + 1] + 1),
        forall|c: int| #![trigger hline(occ, cols, rows, c, row_idx as int)] 0 <= c < col_idx && hline(occ, cols, rows, c, row_idx as int) ==> hseg(self, cols, rows, lt, c, row_idx as int, cols[c + 1] + 1),
        hseg(self, cols, rows, lt, col_idx as int, row_idx as int, x as int),
//@ loop_start 10
    proof {
        if x < x_end { assert(hpart(occ, cols, rows, col_idx as int, row_idx as int, x as int, y as int, true)); }
        if x > x_start { assert(hpart(occ, cols, rows, col_idx as int, row_idx as int, x as int, y as int, false)); }
    }
//@ loop 11
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < num_cols && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1), 
        forall|c: int, r: int| #![trigger hline(occ, cols, rows, c, r)] 0 <= c < num_cols && 1 <= r < num_rows && hline(occ, cols, rows, c, r) ==> hseg(self, cols, rows, lt, c, r, cols[c + 1] + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int),
//@ loop 12
    invariant cols == col_positions@, rows == row_positions@, occ == cell_occupancy@, grid_in(cols, rows), want == occ_want(occ, cols, rows, lt), lt == glt == o.line_type, num_cols == cols.len() - 1, num_rows == rows.len() - 1, num_cols < usize::MAX, num_rows < usize::MAX,
        x_min == cols[0], x_max == cols.last(), y_min == rows[0], y_max == rows.last(), between(&o, self, want), 
        hdone(self, cols, lt, rows[0] as int, cols.last() + 1), 
        hdone(self, cols, lt, rows.last() as int, cols.last() + 1), 
        vdone(self, rows, lt, cols[0] as int, rows.last() + 1), 
        vdone(self, rows, lt, cols.last() as int, rows.last() + 1), 
        forall|c: int, r: int| #![trigger vline(occ, cols, rows, c, r)] 1 <= c < num_cols && 0 <= r < num_rows && vline(occ, cols, rows, c, r) ==> vseg(self, cols, rows, lt, c, r, rows[r + 1] + 1), 
        forall|c: int, r: int| #![trigger hline(occ, cols, rows, c, r)] 0 <= c < num_cols && 1 <= r < num_rows && hline(occ, cols, rows, c, r) ==> hseg(self, cols, rows, lt, c, r, cols[c + 1] + 1), 
        forall|a: usize, b: usize, c: usize, d: usize| #![trigger call_requires(different_occupant, (a, b, c, d))] call_requires(different_occupant, (a, b, c, d)),
        forall|a: usize, b: usize, c: usize, d: usize, r: bool| #![trigger call_ensures(different_occupant, (a, b, c, d), r)] call_ensures(different_occupant, (a, b, c, d), r) ==> r == differ(occ, a as int, b as int, c as int, d as int), 0 <= row_idx <= num_rows, y == rows[row_idx as int], y < self.height,
//@ loop_start 12
    proof {
        let (c, r) = (col_idx as int, row_idx as int); let (a, b) = (cols[c] as int, rows[r] as int);
        if r > 0 { assert(rows[r - 1] < rows[r]); if vline(occ, cols, rows, c, r - 1) { assert(vpart(occ, cols, rows, c, r - 1, a, b, false)); } }
        if r < num_rows { assert(rows[r] < rows[r + 1]); if vline(occ, cols, rows, c, r) { assert(vpart(occ, cols, rows, c, r, a, b, true)); } }
        if c > 0 { assert(cols[c - 1] < cols[c]); if hline(occ, cols, rows, c - 1, r) { assert(hpart(occ, cols, rows, c - 1, r, a, b, false)); } }
        if c < num_cols { assert(cols[c] < cols[c + 1]); if hline(occ, cols, rows, c, r) { assert(hpart(occ, cols, rows, c, r, a, b, true)); } }
    }
//@ after_loop 11
    proof {
        assert forall|a: int, b: int| #![trigger self.at(a, b)] self.inside(a, b) implies self.at(a, b) == comb(o.at(a, b), want(a, b)) by {
            let q = self.at(a, b);
            if harm(occ, cols, rows, a, b, true) { let (c, r) = choose|c: int, r: int| #[trigger] hpart(occ, cols, rows, c, r, a, b, true); lemma_bounds(cols, c); assert(q.1 >= lt); }
            if harm(occ, cols, rows, a, b, false) { let (c, r) = choose|c: int, r: int| #[trigger] hpart(occ, cols, rows, c, r, a, b, false); lemma_bounds(cols, c); assert(q.3 >= lt); }
            if varm(occ, cols, rows, a, b, true) { let (c, r) = choose|c: int, r: int| #[trigger] vpart(occ, cols, rows, c, r, a, b, true); lemma_bounds(rows, r); assert(q.2 >= lt); }
            if varm(occ, cols, rows, a, b, false) { let (c, r) = choose|c: int, r: int| #[trigger] vpart(occ, cols, rows, c, r, a, b, false); lemma_bounds(rows, r); assert(q.0 >= lt); }
        }
    }
//@ end
}
proof fn lemma_bounds(p: Seq<usize>, c: int)
    requires increasing(p), 0 <= c < p.len() - 1,
    ensures p[0] <= p[c] < p[c + 1] <= p.last(),
{
    if c > 0 { assert(p[0] < p[c]); } if c + 1 < p.len() - 1 { assert(p[c + 1] < p[p.len() - 1]); }
}
#[verifier::external_body] fn blank(n: usize) -> (v: Vec<Quad>) ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v@[i] == (0u8, 0u8, 0u8, 0u8) { vec![(0, 0, 0, 0); n] }
}
