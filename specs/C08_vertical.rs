use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

verus! {
//@ include REAL.rs
//@ include LINEAR.rs
// ---------------------------------------------------------------- the property: the vertical stack
/// the hair that keeps a sum that should be whole from losing a row to rounding
pub open spec fn slack() -> real { 1real / 1000000real }
/// a position rounded down to whole rows
pub open spec fn down(x: real) -> int { (x + slack()).floor() }
pub open spec fn mt(c: LayoutChild) -> real { c.style.margin.top.value.v@ }
pub open spec fn mb(c: LayoutChild) -> real { c.style.margin.bottom.value.v@ }
pub open spec fn pos(x: real) -> real { if x > 0real { x } else { 0real } }
/// the space in front of child k: adjacent margins collapse to the larger one
pub open spec fn gap(c: Seq<LayoutChild>, k: int) -> real { if k == 0 { mt(c[0]) } else { pos(mt(c[k]) - mb(c[k - 1])) } }
/// the width of a child: what its style asks, less the margins when it fills or takes a part, within its limits
pub open spec fn width_of(c: LayoutChild, a: Region, v: Viewport) -> int { width_for(c.style, c.desired_size, a, v) }
pub open spec fn width_for(s: ComputedStyle, natural: Size, a: Region, v: Viewport) -> int {
    let base = base_width(s, natural.width, a.width) as int;
    let fills = match s.width { Some(w) => w.unit != Unit::Cells && w.unit != Unit::Auto, None => true };
    bounded_by(if fills { max_(base - mcells(s.margin.left) - mcells(s.margin.right), 0) } else { base }, s.max_width, s.min_width, a.width as int, a, v)
}
pub open spec fn natural_height(c: LayoutChild, a: Region, v: Viewport) -> real { c.node.height_at(clip16(width_of(c, a, v)) as u16) as real }
pub open spec fn is_fr(c: LayoutChild) -> bool { match c.style.height { Some(h) => h.unit == Unit::Fraction, None => c.desired_size.height == u16::MAX } }
pub open spec fn weight(c: LayoutChild) -> real { match c.style.height { Some(h) => h.value.v@, None => 1real } }
/// what a child that takes no share of the rest needs; percentages are of `whole`
pub open spec fn fixed(c: LayoutChild, a: Region, v: Viewport, whole: int) -> real {
    match c.style.height {
        Some(h) => match h.unit {
            Unit::Cells => boxed_height(cast(h.value.v@) as i32, c.style) as real,
            Unit::Percent | Unit::Height => rmul(rdiv(h.value.v@, 100real), whole as real),
            Unit::Width | Unit::ViewWidth => rmul(rdiv(h.value.v@, 100real), v.width as real),
            Unit::ViewHeight => rmul(rdiv(h.value.v@, 100real), v.height as real),
            _ => natural_height(c, a, v),
        },
        None => c.desired_size.height as real,
    }
}
pub open spec fn sum_fixed(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> real decreases k { if k <= 0 { 0real } else { sum_fixed(c, a, v, k - 1) + if is_fr(c[k - 1]) { 0real } else { fixed(c[k - 1], a, v, v.height as int) } } }
pub open spec fn sum_weight(c: Seq<LayoutChild>, k: int) -> real decreases k { if k <= 0 { 0real } else { sum_weight(c, k - 1) + if is_fr(c[k - 1]) { weight(c[k - 1]) } else { 0real } } }
pub open spec fn sum_margin(c: Seq<LayoutChild>, k: int) -> real decreases k { if k <= 0 { 0real } else { sum_margin(c, k - 1) + (gap(c, k - 1) + mb(c[k - 1])) } }
/// the height of one fraction: the rest of the screen shared by all of them
pub open spec fn one_fr(c: Seq<LayoutChild>, a: Region, v: Viewport) -> real {
    let rest = (v.height as real) - sum_fixed(c, a, v, c.len() as int) - sum_margin(c, c.len() as int);
    let total = sum_weight(c, c.len() as int);
    if total > 0real && rest > 0real { rdiv(rest, total) } else { 1real }
}
pub open spec fn rlimit(s: Scalar, a: Region, v: Viewport) -> real { match s.unit { Unit::Cells | Unit::Fraction | Unit::Auto => s.value.v@, _ => part(s, a.height as int, a, v) } }
/// the exact height of child k
pub open spec fn height_of(c: LayoutChild, a: Region, v: Viewport, fr: real) -> real {
    let raw = if is_fr(c) { match c.style.height { Some(h) => rmul(h.value.v@, fr), None => fr } } else { fixed(c, a, v, a.height as int) };
    let hi = match c.style.max_height { Some(m) => rmin(raw, rlimit(m, a, v)), None => raw };
    let lo = match c.style.min_height { Some(m) => rmax(hi, rlimit(m, a, v)), None => hi };
    let fills = match c.style.height { Some(h) => h.unit == Unit::Percent || h.unit == Unit::Height || h.unit == Unit::Fraction, None => c.desired_size.height == u16::MAX };
    if fills { pos(lo - mt(c) - mb(c)) } else { lo }
}
/// the exact running position after child k - 1 and its lower margin
pub open spec fn after(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> real decreases k { if k <= 0 { a.y as real } else { after(c, a, v, k - 1) + gap(c, k - 1) + height_of(c[k - 1], a, v, one_fr(c, a, v)) + mb(c[k - 1]) } }
pub open spec fn start_of(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> real { after(c, a, v, k) + gap(c, k) }
pub open spec fn end_of(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> real { start_of(c, a, v, k) + height_of(c[k], a, v, one_fr(c, a, v)) }
/// one placement per child: rows from the exact start to the exact end, rounded down
pub open spec fn stacked(p: WidgetPlacement, c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> bool {
    &&& p.child_index == c[k].index
    &&& p.region.x == a.x + mcells(c[k].style.margin.left)
    &&& p.region.width == width_of(c[k], a, v)
    &&& p.region.y == down(start_of(c, a, v, k))
    &&& p.region.height == max_(down(end_of(c, a, v, k)) - down(start_of(c, a, v, k)), 0)
}
pub open spec fn near(x: real) -> bool { -1000000000real < x < 1000000000real }
pub open spec fn row_ok(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> bool { near(start_of(c, a, v, k)) && near(end_of(c, a, v, k)) }
pub open spec fn stack_ok(c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool { small(a.x as int) && widths_ok(c, a, v) && forall|k: int| 0 <= k < c.len() ==> #[trigger] row_ok(c, a, v, k) }
pub open spec fn widths_ok(c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool { forall|k: int| 0 <= k < c.len() ==> child_ok(#[trigger] c[k], a) }
pub open spec fn child_ok(c: LayoutChild, a: Region) -> bool { style_small(c.style) && small(base_width(c.style, c.desired_size.width, a.width) as int) }

// ---------------------------------------------------------------- what follows for a stack
/// the distance between consecutive children is exactly the larger of the two margins
proof fn theorem_distance(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires 0 <= k < c.len() - 1,
    ensures start_of(c, a, v, k + 1) - end_of(c, a, v, k) == rmax(mb(c[k]), mt(c[k + 1])),
{ }
/// no overlap, in order; whole margins are kept whole, so without margins there is no gap either
proof fn theorem_order(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int, p: WidgetPlacement, q: WidgetPlacement, m: int)
    requires 0 <= k < c.len() - 1, stacked(p, c, a, v, k), stacked(q, c, a, v, k + 1), height_of(c[k], a, v, one_fr(c, a, v)) >= 0real, mb(c[k]) >= 0real || mt(c[k + 1]) >= 0real,
    ensures q.region.y >= p.region.y + p.region.height, rmax(mb(c[k]), mt(c[k + 1])) == m as real ==> q.region.y == p.region.y + p.region.height + m,
{
    theorem_distance(c, a, v, k);
    assert(down(end_of(c, a, v, k)) >= down(start_of(c, a, v, k)));
    if rmax(mb(c[k]), mt(c[k + 1])) == m as real { assert(start_of(c, a, v, k + 1) == end_of(c, a, v, k) + m as real); }
}
/// children that only take shares fill the screen exactly
pub open spec fn only_shares(c: Seq<LayoutChild>) -> bool { forall|k: int| 0 <= k < c.len() ==> share_only(#[trigger] c[k]) }
pub open spec fn share_only(c: LayoutChild) -> bool { is_fr(c) && weight(c) >= 0real && c.style.max_height is None && c.style.min_height is None && mt(c) == 0real && mb(c) == 0real }
proof fn theorem_fill(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires only_shares(c), v.height > 0, sum_weight(c, c.len() as int) > 0real, 0 <= k <= c.len(),
    ensures after(c, a, v, k) == (a.y as real) + sum_weight(c, k) * one_fr(c, a, v), k == c.len() ==> after(c, a, v, k) == (a.y + v.height) as real, decreases k,
{
    lemma_nothing_fixed(c, a, v, c.len() as int);
    let f = one_fr(c, a, v);
    assert(f == (v.height as real) / sum_weight(c, c.len() as int)) by { reveal(rdiv); }
    let t = sum_weight(c, c.len() as int); let h = v.height as real; assert(f > 0real) by(nonlinear_arith) requires f == h / t, t > 0real, h > 0real;
    if k > 0 {
        theorem_fill(c, a, v, k - 1); assert(share_only(c[k - 1]));
        if k > 1 { assert(share_only(c[k - 2])); }
        assert(weight(c[k - 1]) * f >= 0real) by(nonlinear_arith) requires weight(c[k - 1]) >= 0real, f > 0real;
        assert((sum_weight(c, k - 1) + weight(c[k - 1])) * f == sum_weight(c, k - 1) * f + weight(c[k - 1]) * f) by(nonlinear_arith);
        let w = weight(c[k - 1]);
        assert(rmul(w, f) == w * f) by { reveal(rmul); }
        assert(height_of(c[k - 1], a, v, f) == w * f) by { if c[k - 1].style.height is None { assert(w * f == f) by(nonlinear_arith) requires w == 1real; } }
        assert(sum_weight(c, k) == sum_weight(c, k - 1) + w);
    } else { assert(sum_weight(c, 0) * f == 0real) by(nonlinear_arith) requires sum_weight(c, 0) == 0real; }
    if k == c.len() { let t = sum_weight(c, k); let h = v.height as real; assert(t * f == h) by(nonlinear_arith) requires f == h / t, t > 0real; }
}
proof fn lemma_nothing_fixed(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires only_shares(c), 0 <= k <= c.len(), ensures sum_fixed(c, a, v, k) == 0real, sum_margin(c, k) == 0real, decreases k,
{ if k > 0 { lemma_nothing_fixed(c, a, v, k - 1); assert(share_only(c[k - 1])); if k > 1 { assert(share_only(c[k - 2])); } } }

// ---------------------------------------------------------------- functions under contract
/// the literal 1e-6 of the code
#[verifier::external_body]
fn hair() -> (r: F) ensures r.v@ == slack() { unimplemented!() }
//@ extract crates/textual/src/layouts/vertical.rs fn resolve_child_width
//@ ret r
//@ sub \(\((\w+)\.value / 100\.0\) \* ([\w.]+) as f64\) as i32 ==> ((\1.value / F::lit(100)) * F::of(\2)).to_i32()
//@ sub ([\w.]+\.value) as i32 ==> \1.to_i32()
//@ contract
    requires style_small(*child_style), small(base_width(*child_style, desired_size.width, available.width) as int),
    ensures r == width_for(*child_style, desired_size, available, viewport),
//@ end

//@ extract crates/textual/src/layouts/vertical.rs fn floor_to_cell
//@ ret r
//@ sub 1e-6 ==> hair()
//@ sub SIG:f64 ==> F
//@ sub (\([^;]*\)\.floor\(\)) as i32 ==> \1.to_i32()
//@ contract
    requires near(position.v@),
    ensures r == down(position.v@),
//@ start
    proof { lemma_cast_whole(down(position.v@)); }
//@ end

//@ extract crates/textual/src/layouts/vertical.rs fn Layout for VerticalLayout::arrange
//@ ret r
//@ sub SIG:&mut self,\s*_parent_style: &ComputedStyle, ==>
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub let mut placements = Vec::with_capacity\([^;]*\); ==> let mut placements: Vec<WidgetPlacement> = Vec::new();
//@ sub for \(i, child\) in children\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..children.len() { let child = &children[i];
//@ sub ([\w.]+)\.clamp\(0, u16::MAX as i32\) as u16 ==> clip(\1)
//@ sub \b(margin\.\w+\.value) as f64 ==> \1
//@ sub ((?:css_height|viewport\.\w+|available\.\w+)) as f64 ==> F::of(\1)
//@ sub (child\.node\.intrinsic_height_for_width\(width_u16\)|desired_size\.height|apply_box_sizing_height\([^;]*?child_style\)) as f64 ==> F::of(\1 as i32)
//@ sub ([\w.]+\.value) as i32 ==> \1.to_i32()
//@ sub \b(1?)(\d)(\d*)\.0\b ==> F::lit(\1\2\3)
//@ sub : f64 ==> : F
//@ sub (\w+) \+= ([^;]*); ==> \1 = \1 + (\2);
//@ nloops 2
//@ contract
    requires stack_ok(children@, available, viewport),
    ensures r@.len() == children@.len(), forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> stacked(r@[k], children@, available, viewport, k),
//@ loop 1
    invariant widths_ok(children@, available, viewport), fixed_height_total.v@ == sum_fixed(children@, available, viewport, i as int), total_fr.v@ == sum_weight(children@, i as int), total_margin.v@ == sum_margin(children@, i as int), i > 0 ==> prev_margin_bottom.v@ == mb(children@[i - 1]),
//@ loop_start 1
    proof { assert(child_ok(children@[i as int], available)); }
//@ loop 2
    invariant stack_ok(children@, available, viewport), widths_ok(children@, available, viewport), fraction_unit.v@ == one_fr(children@, available, viewport), placements@.len() == i, current_y.v@ == after(children@, available, viewport, i as int), i > 0 ==> prev_margin_bottom.v@ == mb(children@[i - 1]),
        forall|k: int| #![trigger placements@[k]] 0 <= k < i ==> stacked(placements@[k], children@, available, viewport, k),
//@ loop_start 2
    proof { assert(child_ok(children@[i as int], available)); assert(row_ok(children@, available, viewport, i as int));  }
//@ end
}
