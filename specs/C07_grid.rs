use vstd::prelude::*;

verus! {

// ---------------------------------------------------------------- vocabulary
/// a block of grid cells (row, column, row span, column span); a left-out child has spans 0
pub type Block = (usize, usize, usize, usize);

pub open spec fn placed(b: Block) -> bool { b.2 > 0 && b.3 > 0 }
pub open spec fn in_block(b: Block, r: int, c: int) -> bool {
    b.0 <= r < b.0 + b.2 && b.1 <= c < b.1 + b.3
}
/// cell (r, c) belongs to one of the first n blocks
pub open spec fn taken(a: Seq<Block>, r: int, c: int) -> bool {
    exists|k: int| 0 <= k < a.len() && in_block(#[trigger] a[k], r, c)
}
pub open spec fn lt(r1: int, c1: int, r2: int, c2: int) -> bool { r1 < r2 || (r1 == r2 && c1 < c2) }

pub open spec fn min_(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn span(s: u16) -> int { if s == 0 { 1 } else { s as int } }

/// the block of a child with the given spans at (r, c), clamped at the grid edge
pub open spec fn clamped(b: Block, rs: u16, cs: u16, rows: int, cols: int) -> bool {
    &&& b.0 < rows && b.1 < cols
    &&& b.2 == min_(span(rs), rows - b.0)
    &&& b.3 == min_(span(cs), cols - b.1)
}
/// the clamped block at (r, c) is free of the earlier blocks
pub open spec fn free_at(a: Seq<Block>, r: int, c: int, rs: u16, cs: u16, rows: int, cols: int) -> bool {
    forall|y: int, x: int| r <= y < r + min_(span(rs), rows - r) && c <= x < c + min_(span(cs), cols - c) ==> !#[trigger] taken(a, y, x)
}
/// position of the last placed block among the first n (or "before the first cell")
pub open spec fn after_prev(a: Seq<Block>, r: int, c: int) -> bool {
    forall|k: int| 0 <= k < a.len() && placed(#[trigger] a[k]) ==> lt(a[k].0 as int, a[k].1 as int, r, c)
}
/// what the property asks of the k-th block
pub open spec fn block_ok(a: Seq<Block>, k: int, rs: u16, cs: u16, rows: int, cols: int) -> bool {
    let b = a[k];
    let prev = a.take(k);
    if placed(b) {
        &&& clamped(b, rs, cs, rows, cols)
        &&& after_prev(prev, b.0 as int, b.1 as int)
        &&& free_at(prev, b.0 as int, b.1 as int, rs, cs, rows, cols)
        &&& forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols && after_prev(prev, r, c) && lt(r, c, b.0 as int, b.1 as int)
                ==> !#[trigger] free_at(prev, r, c, rs, cs, rows, cols)
    } else {
        &&& b == (0usize, 0usize, 0usize, 0usize)
        &&& left_out(prev, rs, cs, rows, cols)
    }
}
pub open spec fn no_room(prev: Seq<Block>, rs: u16, cs: u16, rows: int, cols: int) -> bool {
    forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols && after_prev(prev, r, c) ==> !#[trigger] free_at(prev, r, c, rs, cs, rows, cols)
}
pub open spec fn cs_of(children: Seq<LayoutChild>, k: int) -> u16 { children[k].style.grid_placement.column_span }
pub open spec fn rs_of(children: Seq<LayoutChild>, k: int) -> u16 { children[k].style.grid_placement.row_span }

/// the whole assignment
pub open spec fn assignment_ok(a: Seq<Block>, children: Seq<LayoutChild>, rows: int, cols: int) -> bool {
    forall|k: int| 0 <= k < a.len() ==> #[trigger] block_ok(a, k, rs_of(children, k), cs_of(children, k), rows, cols)
}

// the statement of the property, derived from assignment_ok
/// no cell is given to two children
proof fn theorem_disjoint(a: Seq<Block>, children: Seq<LayoutChild>, rows: int, cols: int, i: int, j: int, r: int, c: int)
    requires assignment_ok(a, children, rows, cols), 0 <= i < j < a.len(), in_block(a[j], r, c),
    ensures !in_block(a[i], r, c), 0 <= r < rows, 0 <= c < cols,
{
    assert(block_ok(a, j, rs_of(children, j), cs_of(children, j), rows, cols));
    assert(placed(a[j]));
    if in_block(a[i], r, c) {
        assert(a.take(j)[i] == a[i]);
        assert(taken(a.take(j), r, c));
        assert(free_at(a.take(j), a[j].0 as int, a[j].1 as int, rs_of(children, j), cs_of(children, j), rows, cols));
    }
}
/// reading order
proof fn theorem_order(a: Seq<Block>, children: Seq<LayoutChild>, rows: int, cols: int, i: int, j: int)
    requires assignment_ok(a, children, rows, cols), 0 <= i < j < a.len(), placed(a[i]), placed(a[j]),
    ensures lt(a[i].0 as int, a[i].1 as int, a[j].0 as int, a[j].1 as int),
{
    assert(block_ok(a, j, rs_of(children, j), cs_of(children, j), rows, cols));
    assert(a.take(j)[i] == a[i]);
    assert(placed(a.take(j)[i]));
}
proof fn lemma_push(a: Seq<Block>, b: Block, children: Seq<LayoutChild>, rows: int, cols: int)
    requires assignment_ok(a, children, rows, cols), a.len() < children.len(),
        block_ok(a.push(b), a.len() as int, rs_of(children, a.len() as int), cs_of(children, a.len() as int), rows, cols),
    ensures assignment_ok(a.push(b), children, rows, cols),
{
    let n = a.push(b);
    assert forall|k: int| 0 <= k < n.len() implies #[trigger] block_ok(n, k, rs_of(children, k), cs_of(children, k), rows, cols) by {
        if k < a.len() {
            assert(block_ok(a, k, rs_of(children, k), cs_of(children, k), rows, cols));
            assert(n.take(k) =~= a.take(k));
            assert(n[k] == a[k]);
        }
    }
}
proof fn lemma_taken_push(a: Seq<Block>, b: Block, r: int, c: int)
    ensures taken(a.push(b), r, c) == (taken(a, r, c) || in_block(b, r, c)),
{
    let n = a.push(b);
    if taken(a, r, c) {
        let k = choose|k: int| 0 <= k < a.len() && in_block(#[trigger] a[k], r, c);
        assert(n[k] == a[k]); assert(in_block(n[k], r, c));
    }
    if in_block(b, r, c) { assert(n[a.len() as int] == b); assert(in_block(n[a.len() as int], r, c)); }
    if taken(n, r, c) {
        let k = choose|k: int| 0 <= k < n.len() && in_block(#[trigger] n[k], r, c);
        if k < a.len() { assert(a[k] == n[k]); assert(in_block(a[k], r, c)); }
    }
}
/// the cursor (cr, cc) is the first cell after every placed block
pub open spec fn cursor_ok(a: Seq<Block>, cr: int, cc: int, cols: int) -> bool {
    forall|r: int, c: int| 0 <= r && 0 <= c < cols ==> (#[trigger] after_prev(a, r, c) <==> !lt(r, c, cr, cc))
}

// ---------------------------------------------------------------- types of the code, cut down to what is read here
pub
//@ extract crates/tcss/src/types/grid.rs struct GridPlacement
//@ end
#[verifier::external_body] pub struct Scalar { x: f64 }
pub struct Spacing { pub top: Scalar, pub right: Scalar, pub bottom: Scalar, pub left: Scalar }
pub
//@ extract crates/tcss/src/types/grid.rs struct GridStyle
//@ end
#[verifier::external_body] pub struct Node { x: u8 }
impl Node { #[verifier::external_body] pub fn intrinsic_height_for_width(&self, w: u16) -> u16 { unimplemented!() } }
#[derive(Clone, Copy)] pub struct Size { pub width: u16, pub height: u16 }
pub struct ComputedStyle { pub grid: GridStyle, pub grid_placement: GridPlacement, pub margin: Spacing, pub width: Option<Scalar>, pub height: Option<Scalar> }
pub struct LayoutChild { pub index: usize, pub style: ComputedStyle, pub desired_size: Size, pub node: Node }
pub struct Viewport { pub width: i32, pub height: i32 }
pub
//@ extract crates/textual/src/layouts/grid.rs struct GridLayout
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Region
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/layouts/grid.rs struct ResolvedTrack
//@ sub pub\(crate\) ==> pub
//@ end
pub
//@ extract crates/textual/src/layouts/mod.rs struct WidgetPlacement
//@ end
//@ extract crates/textual/src/layouts/grid.rs struct OccupancyGrid
//@ sub cells: ==> pub cells:
//@ sub rows: ==> pub rows:
//@ sub cols: ==> pub cols:
//@ sub struct ==> pub struct
//@ end

impl OccupancyGrid {
    pub open spec fn wf(&self) -> bool {
        self.cells@.len() == self.rows && forall|r: int| 0 <= r < self.rows ==> (#[trigger] self.cells@[r])@.len() == self.cols
    }
    pub open spec fn occ(&self, r: int, c: int) -> bool { self.cells@[r]@[c] }
    /// the grid records exactly the cells of the blocks in `a`
    pub open spec fn records(&self, a: Seq<Block>) -> bool {
        self.wf() && forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] self.occ(r, c) == taken(a, r, c)
    }

//@ extract crates/textual/src/layouts/grid.rs fn OccupancyGrid::new
//@ ret res
//@ contract
    ensures res.wf(), res.rows == rows, res.cols == cols, forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols ==> !#[trigger] res.occ(r, c),
//@ end

#[verifier::loop_isolation(false)]
//@ extract crates/textual/src/layouts/grid.rs fn OccupancyGrid::find_next_free
//@ ret res
//@ nloops 2
//@ sub? return Some\(\(row, col\)\); ==> assert(!self.occ(row as int, col as int)); return Some((row, col));
//@ sub? col \+= 1; ==> assert(self.occ(row as int, col as int)); col += 1;
//@ contract
    requires self.wf(),
    ensures match res {
        Some((r, c)) => r < self.rows && c < self.cols && !self.occ(r as int, c as int) && !lt(r as int, c as int, row as int, col as int)
            && forall|y: int, x: int| 0 <= y < self.rows && 0 <= x < self.cols && !lt(y, x, row as int, col as int) && lt(y, x, r as int, c as int) ==> #[trigger] self.occ(y, x),
        None => forall|y: int, x: int| 0 <= y < self.rows && 0 <= x < self.cols && !lt(y, x, row as int, col as int) ==> #[trigger] self.occ(y, x),
    },
//@ start
    let ghost row0 = row as int; let ghost col0 = col as int;
//@ loop 1
    invariant self.wf(), !lt(row as int, col as int, row0, col0),
        forall|y: int, x: int| 0 <= y < self.rows && 0 <= x < self.cols && !lt(y, x, row0, col0) && lt(y, x, row as int, col as int) ==> #[trigger] self.occ(y, x),
    decreases self.rows - row,
//@ loop 2
    invariant self.wf(), row < self.rows, !lt(row as int, col as int, row0, col0),
        forall|y: int, x: int| 0 <= y < self.rows && 0 <= x < self.cols && !lt(y, x, row0, col0) && lt(y, x, row as int, col as int) ==> #[trigger] self.occ(y, x),
    decreases self.cols - col,
//@ end

//@ extract crates/textual/src/layouts/grid.rs fn OccupancyGrid::occupy
//@ nloops 2
//@ loop_start 2
    let ghost g1 = *self;
//@ loop_end 2
    proof {
        assert forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < self.cols implies
            #[trigger] self.occ(a, b) == (old(self).occ(a, b) || (row <= a < r && col <= b < col + col_span) || (a == r && col <= b < c + 1)) by {
            assert(g1.occ(a, b) == (old(self).occ(a, b) || (row <= a < r && col <= b < col + col_span) || (a == r && col <= b < c)));
        }
    }
//@ contract
    requires old(self).wf(), row + row_span <= usize::MAX, col + col_span <= usize::MAX,
    ensures final(self).wf(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
        forall|r: int, c: int| 0 <= r < final(self).rows && 0 <= c < final(self).cols ==>
            #[trigger] final(self).occ(r, c) == (old(self).occ(r, c) || in_block((row, col, row_span, col_span), r, c)),
//@ loop 1
    invariant self.wf(), self.rows == old(self).rows, self.cols == old(self).cols, row + row_span <= usize::MAX, col + col_span <= usize::MAX,
        forall|a: int, c: int| 0 <= a < self.rows && 0 <= c < self.cols ==>
            #[trigger] self.occ(a, c) == (old(self).occ(a, c) || (row <= a < r && col <= c < col + col_span)),
//@ loop 2
    invariant row <= r < self.rows, self.wf(), self.rows == old(self).rows, self.cols == old(self).cols, row + row_span <= usize::MAX, col + col_span <= usize::MAX,
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < self.cols ==>
            #[trigger] self.occ(a, b) == (old(self).occ(a, b) || (row <= a < r && col <= b < col + col_span) || (a == r && col <= b < c)),
//@ end

//@ extract crates/textual/src/layouts/grid.rs fn OccupancyGrid::can_fit
//@ ret res
//@ nloops 2
//@ loop_start 2
    proof { if self.occ(r as int, c as int) { assert(in_block((row, col, row_span, col_span), r as int, c as int)); } }
//@ contract
    requires self.wf(), row + row_span <= usize::MAX, col + col_span <= usize::MAX,
    ensures res == (row + row_span <= self.rows && col + col_span <= self.cols
        && forall|r: int, c: int| in_block((row, col, row_span, col_span), r, c) ==> !#[trigger] self.occ(r, c)),
//@ loop 1
    invariant self.wf(), row + row_span <= self.rows, col + col_span <= self.cols,
        forall|a: int, c: int| row <= a < r && col <= c < col + col_span ==> !#[trigger] self.occ(a, c),
//@ loop 2
    invariant self.wf(), row + row_span <= self.rows, col + col_span <= self.cols, row <= r < row + row_span,
        forall|a: int, b: int| row <= a < r && col <= b < col + col_span ==> !#[trigger] self.occ(a, b),
        forall|b: int| col <= b < c ==> !#[trigger] self.occ(r as int, b),
//@ end
}

/// one placement step, used by both placement loops
proof fn lemma_place(g: OccupancyGrid, a: Seq<Block>, r: int, c: int, rs: u16, cs: u16)
    requires g.records(a), 0 <= r < g.rows, 0 <= c < g.cols,
    ensures free_at(a, r, c, rs, cs, g.rows as int, g.cols as int) <==> (forall|y: int, x: int|
        in_block((r as usize, c as usize, min_(span(rs), g.rows - r) as usize, min_(span(cs), g.cols - c) as usize), y, x) ==> !#[trigger] g.occ(y, x)),
{
    let b = (r as usize, c as usize, min_(span(rs), g.rows - r) as usize, min_(span(cs), g.cols - c) as usize);
    if free_at(a, r, c, rs, cs, g.rows as int, g.cols as int) {
        assert forall|y: int, x: int| in_block(b, y, x) implies !#[trigger] g.occ(y, x) by { assert(!taken(a, y, x)); }
    }
    if forall|y: int, x: int| in_block(b, y, x) ==> !#[trigger] g.occ(y, x) {
        assert forall|y: int, x: int| r <= y < r + min_(span(rs), g.rows - r) && c <= x < c + min_(span(cs), g.cols - c) implies !#[trigger] taken(a, y, x) by {
            assert(in_block(b, y, x)); assert(!g.occ(y, x));
        }
    }
}
/// an occupied start cell cannot be the start of a free block
proof fn lemma_occ_not_free(g: OccupancyGrid, a: Seq<Block>, r: int, c: int, rs: u16, cs: u16)
    requires g.records(a), 0 <= r < g.rows, 0 <= c < g.cols, g.occ(r, c),
    ensures !free_at(a, r, c, rs, cs, g.rows as int, g.cols as int),
{
    assert(taken(a, r, c));
}
/// after pushing the block at (r, c) the cursor is the next cell
proof fn lemma_cursor(a: Seq<Block>, b: Block, cols: int)
    requires placed(b), b.1 < cols, after_prev(a, b.0 as int, b.1 as int),
    ensures b.1 + 1 < cols ==> cursor_ok(a.push(b), b.0 as int, b.1 + 1, cols), b.1 + 1 == cols ==> cursor_ok(a.push(b), b.0 + 1, 0, cols),
{
    let n = a.push(b);
    assert forall|r: int, c: int| 0 <= r && 0 <= c < cols implies (#[trigger] after_prev(n, r, c) <==> lt(b.0 as int, b.1 as int, r, c)) by {
        if after_prev(n, r, c) { assert(n[a.len() as int] == b); }
        if lt(b.0 as int, b.1 as int, r, c) {
            assert forall|k: int| 0 <= k < n.len() && placed(#[trigger] n[k]) implies lt(n[k].0 as int, n[k].1 as int, r, c) by {
                if k < a.len() { assert(n[k] == a[k]); assert(placed(a[k])); }
            }
        }
    }
}
proof fn lemma_cursor_skip(a: Seq<Block>, cr: int, cc: int, cols: int)
    requires cursor_ok(a, cr, cc, cols),
    ensures cursor_ok(a.push((0usize, 0usize, 0usize, 0usize)), cr, cc, cols),
{
    let b = (0usize, 0usize, 0usize, 0usize);
    let n = a.push(b);
    assert forall|r: int, c: int| 0 <= r && 0 <= c < cols implies (#[trigger] after_prev(n, r, c) <==> after_prev(a, r, c)) by {
        if after_prev(a, r, c) {
            assert forall|k: int| 0 <= k < n.len() && placed(#[trigger] n[k]) implies lt(n[k].0 as int, n[k].1 as int, r, c) by {
                if k < a.len() { assert(n[k] == a[k]); assert(placed(a[k])); } else { assert(n[k] == b); }
            }
        }
        if after_prev(n, r, c) {
            assert forall|k: int| 0 <= k < a.len() && placed(#[trigger] a[k]) implies lt(a[k].0 as int, a[k].1 as int, r, c) by { assert(n[k] == a[k]); assert(placed(n[k])); }
        }
    }
}
proof fn lemma_records_push(g: OccupancyGrid, g2: OccupancyGrid, a: Seq<Block>, b: Block)
    requires g.records(a), g2.wf(), g2.rows == g.rows, g2.cols == g.cols,
        forall|r: int, c: int| 0 <= r < g2.rows && 0 <= c < g2.cols ==> #[trigger] g2.occ(r, c) == (g.occ(r, c) || in_block(b, r, c)),
    ensures g2.records(a.push(b)),
{
    assert forall|r: int, c: int| 0 <= r < g2.rows && 0 <= c < g2.cols implies #[trigger] g2.occ(r, c) == taken(a.push(b), r, c) by {
        lemma_taken_push(a, b, r, c);
        assert(g.occ(r, c) == taken(a, r, c));
    }
}
proof fn lemma_none_push(g: OccupancyGrid, a: Seq<Block>)
    requires g.records(a),
    ensures g.records(a.push((0usize, 0usize, 0usize, 0usize))),
{
    lemma_records_push(g, g, a, (0usize, 0usize, 0usize, 0usize));
}

/// some earlier child found no room
pub open spec fn stuck(a: Seq<Block>) -> bool { exists|k: int| 0 <= k < a.len() && !placed(#[trigger] a[k]) }
/// a child is left out: there is no room for it, or an earlier child was left out already
pub open spec fn left_out(prev: Seq<Block>, rs: u16, cs: u16, rows: int, cols: int) -> bool { stuck(prev) || no_room(prev, rs, cs, rows, cols) }

pub open spec fn state_ok0(g: OccupancyGrid, a: Seq<Block>, children: Seq<LayoutChild>) -> bool {
    g.records(a) && assignment_ok(a, children, g.rows as int, g.cols as int)
}
pub open spec fn rest_taken(g: OccupancyGrid, cr: int, cc: int) -> bool {
    forall|y: int, x: int| 0 <= y < g.rows && 0 <= x < g.cols && !lt(y, x, cr, cc) ==> #[trigger] g.occ(y, x)
}
/// state of the placement loop between children
pub open spec fn state_ok(g: OccupancyGrid, a: Seq<Block>, children: Seq<LayoutChild>, cr: int, cc: int) -> bool {
    &&& state_ok0(g, a, children)
    &&& 0 <= cr <= g.rows && 0 <= cc && (cc < g.cols || cc == 0)
    &&& if stuck(a) { rest_taken(g, cr, cc) } else { cursor_ok(a, cr, cc, g.cols as int) }
}
/// state while looking for a place: no earlier position works for this child
pub open spec fn searching(g: OccupancyGrid, a: Seq<Block>, cr: int, cc: int, rs: u16, cs: u16) -> bool {
    &&& 0 <= cr <= g.rows && 0 <= cc && (cc < g.cols || cc == 0)
    &&& if stuck(a) { rest_taken(g, cr, cc) } else {
        &&& forall|r: int, c: int| 0 <= r < g.rows && 0 <= c < g.cols && after_prev(a, r, c) && lt(r, c, cr, cc) ==> !#[trigger] free_at(a, r, c, rs, cs, g.rows as int, g.cols as int)
        &&& forall|r: int, c: int| 0 <= r < g.rows && 0 <= c < g.cols && !lt(r, c, cr, cc) ==> #[trigger] after_prev(a, r, c)
    }
}
proof fn lemma_init(g: OccupancyGrid)
    requires g.wf(), forall|r: int, c: int| 0 <= r < g.rows && 0 <= c < g.cols ==> !#[trigger] g.occ(r, c),
    ensures g.records(Seq::<Block>::empty()), cursor_ok(Seq::<Block>::empty(), 0, 0, g.cols as int), !stuck(Seq::<Block>::empty()),
{
}
proof fn lemma_search(g: OccupancyGrid, a: Seq<Block>, children: Seq<LayoutChild>, cr: int, cc: int, rs: u16, cs: u16)
    requires state_ok(g, a, children, cr, cc),
    ensures searching(g, a, cr, cc, rs, cs),
{
}
proof fn lemma_skip(g: OccupancyGrid, a: Seq<Block>, cr0: int, cc0: int, cr: int, cc: int, rs: u16, cs: u16)
    requires g.records(a), searching(g, a, cr0, cc0, rs, cs), 0 <= cr < g.rows, 0 <= cc < g.cols, !g.occ(cr, cc), !lt(cr, cc, cr0, cc0),
        forall|y: int, x: int| 0 <= y < g.rows && 0 <= x < g.cols && !lt(y, x, cr0, cc0) && lt(y, x, cr, cc) ==> #[trigger] g.occ(y, x),
    ensures searching(g, a, cr, cc, rs, cs), !stuck(a),
{
    assert forall|r: int, c: int| 0 <= r < g.rows && 0 <= c < g.cols && after_prev(a, r, c) && lt(r, c, cr, cc) implies !#[trigger] free_at(a, r, c, rs, cs, g.rows as int, g.cols as int) by {
        if !lt(r, c, cr0, cc0) { assert(g.occ(r, c)); lemma_occ_not_free(g, a, r, c, rs, cs); }
    }
}
proof fn lemma_put(g0: OccupancyGrid, g: OccupancyGrid, a: Seq<Block>, children: Seq<LayoutChild>, b: Block)
    requires state_ok0(g0, a, children), a.len() < children.len(),
        searching(g0, a, b.0 as int, b.1 as int, rs_of(children, a.len() as int), cs_of(children, a.len() as int)), !stuck(a),
        clamped(b, rs_of(children, a.len() as int), cs_of(children, a.len() as int), g0.rows as int, g0.cols as int),
        free_at(a, b.0 as int, b.1 as int, rs_of(children, a.len() as int), cs_of(children, a.len() as int), g0.rows as int, g0.cols as int),
        g.wf(), g.rows == g0.rows, g.cols == g0.cols,
        forall|r: int, c: int| 0 <= r < g.rows && 0 <= c < g.cols ==> #[trigger] g.occ(r, c) == (g0.occ(r, c) || in_block(b, r, c)),
    ensures state_ok0(g, a.push(b), children), !stuck(a.push(b)),
        b.1 + 1 < g.cols ==> cursor_ok(a.push(b), b.0 as int, b.1 + 1, g.cols as int), b.1 + 1 == g.cols ==> cursor_ok(a.push(b), b.0 + 1, 0, g.cols as int),
{
    let n = a.push(b);
    lemma_records_push(g0, g, a, b);
    assert(n.take(a.len() as int) =~= a);
    assert(after_prev(a, b.0 as int, b.1 as int));
    lemma_push(a, b, children, g.rows as int, g.cols as int);
    lemma_cursor(a, b, g.cols as int);
    if stuck(n) {
        let k = choose|k: int| 0 <= k < n.len() && !placed(#[trigger] n[k]);
        if k < a.len() { assert(a[k] == n[k]); assert(!placed(a[k])); }
    }
}
proof fn lemma_out(g: OccupancyGrid, a: Seq<Block>, children: Seq<LayoutChild>, cr: int, cc: int)
    requires state_ok0(g, a, children), a.len() < children.len(), rest_taken(g, cr, cc),
        searching(g, a, cr, cc, rs_of(children, a.len() as int), cs_of(children, a.len() as int)),
    ensures state_ok(g, a.push((0usize, 0usize, 0usize, 0usize)), children, cr, cc),
{
    let b = (0usize, 0usize, 0usize, 0usize);
    let n = a.push(b);
    let rs = rs_of(children, a.len() as int);
    let cs = cs_of(children, a.len() as int);
    assert(n[a.len() as int] == b); assert(!placed(n[a.len() as int]));
    assert(stuck(n));
    assert(n.take(a.len() as int) =~= a);
    if !stuck(a) {
        assert forall|r: int, c: int| 0 <= r < g.rows && 0 <= c < g.cols && after_prev(a, r, c) implies !#[trigger] free_at(a, r, c, rs, cs, g.rows as int, g.cols as int) by {
            if !lt(r, c, cr, cc) { assert(g.occ(r, c)); lemma_occ_not_free(g, a, r, c, rs, cs); }
        }
    }
    lemma_push(a, b, children, g.rows as int, g.cols as int);
    lemma_none_push(g, a);
}
/// past the last row nothing is left
proof fn lemma_full(g: OccupancyGrid, a: Seq<Block>, children: Seq<LayoutChild>, cr: int, cc: int)
    requires state_ok(g, a, children, cr, cc),
    ensures cr >= g.rows ==> forall|k: int| a.len() <= k < children.len() ==> #[trigger] left_out(a, rs_of(children, k), cs_of(children, k), g.rows as int, g.cols as int),
{
    if cr >= g.rows && !stuck(a) {
        assert forall|k: int| a.len() <= k < children.len() implies #[trigger] left_out(a, rs_of(children, k), cs_of(children, k), g.rows as int, g.cols as int) by {
            assert forall|r: int, c: int| 0 <= r < g.rows && 0 <= c < g.cols && after_prev(a, r, c) implies !#[trigger] free_at(a, r, c, rs_of(children, k), cs_of(children, k), g.rows as int, g.cols as int) by {
                assert(lt(r, c, cr, cc));
            }
        }
    }
}


// ---------------------------------------------------------------- regions of blocks
pub open spec fn BIG() -> int { 0x1000_0000 }
/// consecutive tracks, a gutter apart
#[verifier::opaque]
pub open spec fn tracks_ok(t: Seq<ResolvedTrack>, g: int) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> 0 <= (#[trigger] t[i]).size < BIG() && 0 <= t[i].offset < BIG()
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> t[i + 1].offset == (#[trigger] t[i]).offset + t[i].size + g
    &&& 0 <= g < 0x10000
    &&& t.len() <= 0x1000
}
/// first to last cell of the tracks a..b
pub open spec fn extent(t: Seq<ResolvedTrack>, a: int, b: int) -> int { t[b - 1].offset + t[b - 1].size - t[a].offset }
pub open spec fn rect_of(b: Block, cols: Seq<ResolvedTrack>, rows: Seq<ResolvedTrack>, avail: Region, r: Region) -> bool {
    &&& r.x == avail.x + cols[b.1 as int].offset
    &&& r.y == avail.y + rows[b.0 as int].offset
    &&& r.width == extent(cols, b.1 as int, b.1 + b.3)
    &&& r.height == extent(rows, b.0 as int, b.0 + b.2)
}
pub open spec fn region_small(r: Region) -> bool { -BIG() < r.x < BIG() && -BIG() < r.y < BIG() && -BIG() < r.width < BIG() && -BIG() < r.height < BIG() }
pub open spec fn sum_from(t: Seq<ResolvedTrack>, a: int, b: int) -> int decreases b - a { if a >= b { 0 } else { sum_from(t, a, b - 1) + t[b - 1].size } }
proof fn lemma_sum(t: Seq<ResolvedTrack>, g: int, a: int, b: int)
    requires tracks_ok(t, g), 0 <= a < b <= t.len(),
    ensures sum_from(t, a, b) + (b - a - 1) * g == extent(t, a, b), 0 <= sum_from(t, a, b) <= extent(t, a, b),
    decreases b - a,
{
    reveal(tracks_ok);
    if b - a > 1 {
        lemma_sum(t, g, a, b - 1);
        assert(t[b - 2 + 1].offset == t[b - 2].offset + t[b - 2].size + g);
        assert((b - a - 1) * g == (b - 1 - a - 1) * g + g) by (nonlinear_arith);
        assert(sum_from(t, a, b) == sum_from(t, a, b - 1) + t[b - 1].size);
    } else {
        assert(sum_from(t, a, a) == 0);
        assert((b - a - 1) * g == 0) by (nonlinear_arith) requires b - a - 1 == 0;
        assert(sum_from(t, a, b) == sum_from(t, a, b - 1) + t[b - 1].size);
    }
}
// helpers the iterator expressions of child_region are rewritten to
fn offset_or_zero(t: &[ResolvedTrack], i: usize) -> (r: i32)
    ensures r == (if i < t@.len() { t@[i as int].offset as int } else { 0 }),
{ if i < t.len() { t[i].offset } else { 0 } }
fn sum_sizes(t: &[ResolvedTrack], from: usize, Ghost(g): Ghost<int>) -> (r: i32)
    requires tracks_ok(t@, g), from < t@.len(),
    ensures r == sum_from(t@, from as int, t@.len() as int),
{
    proof { reveal(tracks_ok); }
    let mut s: i32 = 0;
    for i in from..t.len()
        invariant tracks_ok(t@, g), from < t@.len(), s == sum_from(t@, from as int, i as int), 0 <= s < 0x2000_0000,
    {
        proof { reveal(tracks_ok); lemma_sum(t@, g, from as int, i as int + 1); }
        s = s + t[i].size;
    }
    s
}

//@ extract crates/textual/src/layouts/grid.rs fn child_region
//@ ret res
//@ sub (\w+)\.get\((\w+)\)\.map\(\|t\| t\.offset\)\.unwrap_or\(0\) ==> offset_or_zero(\1, \2)
//@ sub columns\[col\.\.\]\.iter\(\)\.map\(\|t\| t\.size\)\.sum::<i32>\(\) ==> sum_sizes(columns, col, Ghost(gutter_h as int))
//@ sub rows\[row\.\.\]\.iter\(\)\.map\(\|t\| t\.size\)\.sum::<i32>\(\) ==> sum_sizes(rows, row, Ghost(gutter_v as int))
//@ contract
    requires tracks_ok(columns@, gutter_h as int), tracks_ok(rows@, gutter_v as int), region_small(region),
        col < columns@.len(), row < rows@.len(), 1 <= col_span, col + col_span <= columns@.len(), 1 <= row_span, row + row_span <= rows@.len(),
    ensures rect_of((row, col, row_span, col_span), columns@, rows@, region, res),
        -0x3000_0000 < res.x < 0x3000_0000, -0x3000_0000 < res.y < 0x3000_0000, 0 <= res.width < 0x3000_0000, 0 <= res.height < 0x3000_0000,
//@ start
    proof {
        reveal(tracks_ok);
        lemma_sum(columns@, gutter_h as int, col as int, col + col_span);
        lemma_sum(rows@, gutter_v as int, row as int, row + row_span);
        assert(columns@[col + col_span - 1].offset + columns@[col + col_span - 1].size + gutter_h == if col + col_span < columns@.len() { columns@[col + col_span].offset as int } else { columns@[col + col_span - 1].offset + columns@[col + col_span - 1].size + gutter_h });
        assert(rows@[row + row_span - 1].offset + rows@[row + row_span - 1].size + gutter_v == if row + row_span < rows@.len() { rows@[row + row_span].offset as int } else { rows@[row + row_span - 1].offset + rows@[row + row_span - 1].size + gutter_v });
        assert(0 <= (col_span - 1) * gutter_h < 0x1000_0000) by (nonlinear_arith) requires 1 <= col_span <= 0x1000, 0 <= gutter_h < 0x10000;
        assert(0 <= (row_span - 1) * gutter_v < 0x1000_0000) by (nonlinear_arith) requires 1 <= row_span <= 0x1000, 0 <= gutter_v < 0x10000;
    }
//@ end

// ---------------------------------------------------------------- callees, by contract
pub uninterp spec fn cells(s: Scalar) -> int;
pub open spec fn plain(s: ComputedStyle) -> bool {
    s.width is None && s.height is None && cells(s.margin.top) == 0 && cells(s.margin.right) == 0 && cells(s.margin.bottom) == 0 && cells(s.margin.left) == 0
}
/// `scalar.value as i32` (assumed small)
#[verifier::external_body] fn cells_of(s: &Scalar) -> (r: i32) ensures r == cells(*s), -0x100_0000 < r < 0x100_0000 { unimplemented!() }
#[verifier::external_body] fn is_auto(s: &Option<Scalar>) -> (r: bool) ensures s is None ==> !r { unimplemented!() }
/// decided by C09
#[verifier::external_body] fn resolve_width_with_intrinsic(s: &ComputedStyle, i: u16, a: i32) -> (r: i32) ensures s.width is None ==> r == a, -0x2000_0000 < r < 0x2000_0000 { unimplemented!() }
#[verifier::external_body] fn resolve_height_with_intrinsic(s: &ComputedStyle, i: u16, a: i32) -> (r: i32) ensures s.height is None ==> r == a, -0x2000_0000 < r < 0x2000_0000 { unimplemented!() }

/// what `arrange` hands out: the children of the assignment `asg` in order, each in the rectangle of its block
#[verifier::opaque]
pub open spec fn placements_ok(res: Seq<WidgetPlacement>, asg: Seq<Block>, children: Seq<LayoutChild>, cols: Seq<ResolvedTrack>, rows: Seq<ResolvedTrack>, avail: Region) -> bool {
    &&& res.len() == asg.len() && asg.len() <= children.len()
    &&& assignment_ok(asg, children, rows.len() as int, cols.len() as int)
    &&& forall|k: int| 0 <= k < asg.len() ==> placed(#[trigger] asg[k])
    &&& forall|k: int| 0 <= k < res.len() ==> (#[trigger] res[k]).child_index == children[k].index && (plain(children[k].style) ==> rect_of(asg[k], cols, rows, avail, res[k].region))
    &&& forall|k: int| 0 <= k < res.len() ==> (#[trigger] res[k]).region.x == avail.x + cols[asg[k].1 as int].offset + cells(children[k].style.margin.left)
            && res[k].region.y == avail.y + rows[asg[k].0 as int].offset + cells(children[k].style.margin.top)
            && 0 <= res[k].region.width && 0 <= res[k].region.height
}
pub open spec fn rest_left_out(asg: Seq<Block>, children: Seq<LayoutChild>, rows: int, cols: int) -> bool {
    forall|k: int| asg.len() <= k < children.len() ==> #[trigger] left_out_after(asg, children, k, rows, cols)
}
/// child k is left out: the first child after asg has no room, and nothing is placed after a child without room
pub open spec fn left_out_after(asg: Seq<Block>, children: Seq<LayoutChild>, k: int, rows: int, cols: int) -> bool {
    left_out(asg, rs_of(children, asg.len() as int), cs_of(children, asg.len() as int), rows, cols)
}

proof fn lemma_placements_push(res: Seq<WidgetPlacement>, asg: Seq<Block>, children: Seq<LayoutChild>, cols: Seq<ResolvedTrack>, rows: Seq<ResolvedTrack>, avail: Region, b: Block, cell: Region, p: WidgetPlacement)
    requires placements_ok(res, asg, children, cols, rows, avail), asg.len() < children.len(),
        assignment_ok(asg.push(b), children, rows.len() as int, cols.len() as int), placed(b),
        rect_of(b, cols, rows, avail, cell), p.child_index == children[asg.len() as int].index,
        plain(children[asg.len() as int].style) ==> p.region == cell,
        p.region.x == cell.x + cells(children[asg.len() as int].style.margin.left),
        p.region.y == cell.y + cells(children[asg.len() as int].style.margin.top),
        0 <= p.region.width, 0 <= p.region.height,
    ensures placements_ok(res.push(p), asg.push(b), children, cols, rows, avail),
{
    reveal(placements_ok);
    let n = res.push(p); let m = asg.push(b);
    assert forall|k: int| 0 <= k < m.len() implies placed(#[trigger] m[k]) by { if k < asg.len() { assert(m[k] == asg[k]); } }
    assert forall|k: int| 0 <= k < n.len() implies (#[trigger] n[k]).child_index == children[k].index && (plain(children[k].style) ==> rect_of(m[k], cols, rows, avail, n[k].region))
        && n[k].region.x == avail.x + cols[m[k].1 as int].offset + cells(children[k].style.margin.left)
        && n[k].region.y == avail.y + rows[m[k].0 as int].offset + cells(children[k].style.margin.top)
        && 0 <= n[k].region.width && 0 <= n[k].region.height by {
        if k < res.len() { assert(n[k] == res[k]); assert(m[k] == asg[k]); }
    }
}
proof fn lemma_placements_none(children: Seq<LayoutChild>, cols: Seq<ResolvedTrack>, rows: Seq<ResolvedTrack>, avail: Region)
    ensures placements_ok(Seq::<WidgetPlacement>::empty(), Seq::<Block>::empty(), children, cols, rows, avail),
{
    reveal(placements_ok);
}
proof fn lemma_placements_len(res: Seq<WidgetPlacement>, asg: Seq<Block>, children: Seq<LayoutChild>, cols: Seq<ResolvedTrack>, rows: Seq<ResolvedTrack>, avail: Region)
    requires placements_ok(res, asg, children, cols, rows, avail),
    ensures res.len() == asg.len(),
{
    reveal(placements_ok);
}

impl GridLayout {
#[verifier::external_body] fn resolve_scalar(s: &Scalar, available: i32) -> (r: i32) ensures 0 <= r < 0x10000 { unimplemented!() }
/// the offset chain is decided by C06
#[verifier::external_body] fn resolve_tracks(specs: &Vec<Scalar>, count: usize, available: i32, gutter: i32) -> (r: Vec<ResolvedTrack>)
    ensures r@.len() == count, tracks_ok(r@, gutter as int) { unimplemented!() }
#[verifier::external_body] fn resolve_tracks_with_content(specs: &Vec<Scalar>, count: usize, available: i32, gutter: i32, content_sizes: &Vec<i32>) -> (r: Vec<ResolvedTrack>)
    ensures r@.len() == count, tracks_ok(r@, gutter as int) { unimplemented!() }
#[verifier::external_body] fn compute_content_sizes(children: &[LayoutChild], assignments: &Vec<Block>, rows: usize, cols: usize) -> (r: (Vec<i32>, Vec<i32>))
    ensures r.0@.len() == cols, r.1@.len() == rows { unimplemented!() }

//@ extract crates/textual/src/layouts/grid.rs fn GridLayout::column_count
//@ ret res
//@ contract
    ensures res <= i32::MAX,
//@ end

//@ extract crates/textual/src/layouts/grid.rs fn GridLayout::row_count
//@ ret res
//@ contract
    requires cols <= i32::MAX, child_count <= 0x8000_0000,
    ensures res <= 0x1_0000_0000,
//@ start
    proof { if cols > 0 { let c = cols as int; let n = child_count as int; assert((n + c - 1) / c <= n + c - 1) by (nonlinear_arith) requires c >= 1, n >= 0; } }
//@ end

//@ extract crates/textual/src/layouts/grid.rs fn GridLayout::compute_cell_assignments
//@ ret res
//@ nloops 2
//@ sub for child in children \{ ==> for k in 0..children.len() { let child = &children[k];
//@ sub let effective_col_span ==> proof { lemma_skip(occupancy, assignments@, cr0, cc0, current_row as int, current_col as int, rs, cs); lemma_place(occupancy, assignments@, current_row as int, current_col as int, rs, cs); } let effective_col_span
//@ sub if occupancy\.can_fit\( ==> let ghost g0 = occupancy; if occupancy.can_fit(
//@ sub assignments\.push\(\(\s*current_row, ==> proof { lemma_put(g0, occupancy, assignments@, children@, (current_row, current_col, effective_row_span, effective_col_span)); } assignments.push((current_row,
//@ sub assignments\.push\(\(0, 0, 0, 0\)\); ==> proof { lemma_out(occupancy, assignments@, children@, current_row as int, current_col as int); } assignments.push((0, 0, 0, 0));
//@ contract
    requires rows <= 0x1_0000_0000, cols <= 0x1_0000_0000,
    ensures res@.len() <= children@.len(), assignment_ok(res@, children@, rows as int, cols as int),
        forall|k: int| res@.len() <= k < children@.len() ==> #[trigger] left_out(res@, rs_of(children@, k), cs_of(children@, k), rows as int, cols as int),
//@ before_loop 1
    proof { lemma_init(occupancy); }
//@ loop 1
    invariant_except_break
        assignments@.len() == k,
    invariant
        rows <= 0x1_0000_0000, cols <= 0x1_0000_0000, occupancy.rows == rows, occupancy.cols == cols,
        assignments@.len() <= children@.len(),
        state_ok(occupancy, assignments@, children@, current_row as int, current_col as int),
    ensures
        forall|k: int| assignments@.len() <= k < children@.len() ==> #[trigger] left_out(assignments@, rs_of(children@, k), cs_of(children@, k), rows as int, cols as int),
//@ loop 2
    invariant_except_break
        assignments@.len() == k,
        state_ok0(occupancy, assignments@, children@),
        searching(occupancy, assignments@, current_row as int, current_col as int, rs, cs),
        current_row <= rows,
    invariant
        rows <= 0x1_0000_0000, cols <= 0x1_0000_0000, occupancy.rows == rows, occupancy.cols == cols, k < children@.len(),
        rs == rs_of(children@, k as int), cs == cs_of(children@, k as int), col_span == span(cs), row_span == span(rs),
    ensures
        assignments@.len() == k + 1,
        state_ok(occupancy, assignments@, children@, current_row as int, current_col as int),
    decreases rows - current_row, cols - current_col,
//@ before_loop 2
    let ghost rs = rs_of(children@, k as int); let ghost cs = cs_of(children@, k as int);
    proof { lemma_search(occupancy, assignments@, children@, current_row as int, current_col as int, rs, cs); }
//@ loop_start 2
    let ghost cr0 = current_row as int; let ghost cc0 = current_col as int;
//@ after_loop 2
    proof { lemma_full(occupancy, assignments@, children@, current_row as int, current_col as int); }
//@ end

//@ extract crates/textual/src/layouts/grid.rs fn Layout for GridLayout::arrange
//@ ret res
//@ nloops 2
//@ sub parent_style\s*\.(width|height)\s*\.as_ref\(\)\s*\.map_or\(false, \|\w\| \w\.unit == Unit::Auto\) ==> is_auto(&parent_style.\1)
//@ sub child_style\s*\.(width|height)\s*\.as_ref\(\)\s*\.map_or\(false, \|\w\| \w\.unit == Unit::Auto\) ==> is_auto(&child_style.\1)
//@ sub child_style\.margin\.(\w+)\.value as i32 ==> cells_of(&child_style.margin.\1)
//@ sub for child in children \{ ==> for k in 0..children.len() { let child = &children[k];
//@ sub let effective_col_span ==> proof { lemma_skip(occupancy, asg, cr0, cc0, current_row as int, current_col as int, rs, cs); lemma_place(occupancy, asg, current_row as int, current_col as int, rs, cs); } let effective_col_span
//@ sub if occupancy\.can_fit\( ==> let ghost g0 = occupancy; if occupancy.can_fit(
//@ sub return Vec::new\(\); ==> let v = Vec::new(); proof { lemma_placements_none(children@, Seq::empty(), Seq::empty(), available); assert(v@ =~= Seq::<WidgetPlacement>::empty()); assert(rest_left_out(Seq::empty(), children@, 0, 0)); } return v;
//@ sub result\.push\( ==> proof { lemma_put(g0, occupancy, asg, children@, (current_row, current_col, effective_row_span, effective_col_span)); lemma_placements_push(result@, asg, children@, columns@, row_tracks@, available, (current_row, current_col, effective_row_span, effective_col_span), cell_region, WidgetPlacement { child_index, region: final_region }); asg = asg.push((current_row, current_col, effective_row_span, effective_col_span)); } result.push(
//@ sub break true; ==> placed = true; break;
//@ sub let placed = loop \{ ==> let ghost rs = rs_of(children@, k as int); let ghost cs = cs_of(children@, k as int); proof { lemma_search(occupancy, asg, children@, current_row as int, current_col as int, rs, cs); } let mut placed = false; loop {
//@ sub None => break false, ==> None => { proof { lemma_out(occupancy, asg, children@, current_row as int, current_col as int); assert(asg.push((0usize, 0usize, 0usize, 0usize)).take(asg.len() as int) =~= asg); assert(block_ok(asg.push((0usize, 0usize, 0usize, 0usize)), asg.len() as int, rs, cs, rows as int, cols as int)); } placed = false; break; }
//@ contract
    requires region_small(available), children@.len() <= 0x8000_0000,
    ensures exists|asg: Seq<Block>, cols: Seq<ResolvedTrack>, rows: Seq<ResolvedTrack>| #[trigger] placements_ok(res@, asg, children@, cols, rows, available)
        && rest_left_out(asg, children@, rows.len() as int, cols.len() as int),
//@ before_loop 1
    let ghost mut asg: Seq<Block> = Seq::empty();
    proof { lemma_init(occupancy); lemma_placements_none(children@, columns@, row_tracks@, available); assert(result@ =~= Seq::<WidgetPlacement>::empty()); }
//@ loop 1
    invariant_except_break
        asg.len() == k,
        state_ok(occupancy, asg, children@, current_row as int, current_col as int),
    invariant
        region_small(available), tracks_ok(columns@, gutter_h as int), tracks_ok(row_tracks@, gutter_v as int), columns@.len() == cols, row_tracks@.len() == rows,
        rows <= 0x1_0000_0000, cols <= 0x1_0000_0000, occupancy.rows == rows, occupancy.cols == cols,
        asg.len() <= children@.len(), !stuck(asg),
        placements_ok(result@, asg, children@, columns@, row_tracks@, available),
    ensures
        rest_left_out(asg, children@, rows as int, cols as int),
//@ loop 2
    invariant_except_break
        asg.len() == k,
        state_ok0(occupancy, asg, children@),
        searching(occupancy, asg, current_row as int, current_col as int, rs, cs),
        current_row <= rows,
    invariant
        region_small(available), tracks_ok(columns@, gutter_h as int), tracks_ok(row_tracks@, gutter_v as int), columns@.len() == cols, row_tracks@.len() == rows,
        rows <= 0x1_0000_0000, cols <= 0x1_0000_0000, occupancy.rows == rows, occupancy.cols == cols, k < children@.len(), child == &children@[k as int], child_style == &child.style, child_index == child.index,
        rs == rs_of(children@, k as int), cs == cs_of(children@, k as int), col_span == span(cs), row_span == span(rs), !stuck(asg),
        placements_ok(result@, asg, children@, columns@, row_tracks@, available),
    ensures
        placed ==> asg.len() == k + 1 && state_ok(occupancy, asg, children@, current_row as int, current_col as int),
        !placed ==> asg.len() == k && left_out(asg, rs_of(children@, k as int), cs_of(children@, k as int), rows as int, cols as int),
    decreases rows - current_row, cols - current_col,
//@ loop_start 2
    let ghost cr0 = current_row as int; let ghost cc0 = current_col as int;
//@ end
}

} // verus!
