use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

verus! {
//@ include REAL.rs
//@ include LINEAR.rs
// exact fractions: the arithmetic of the code's Fraction is under contract in C05
#[derive(Clone, Copy)]
pub struct Fraction { pub v: Ghost<real> }
impl std::ops::Add for Fraction { type Output = Fraction; #[verifier::external_body] fn add(self, o: Fraction) -> (r: Fraction) { unimplemented!() } }
impl AddSpecImpl for Fraction { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fraction) -> bool { true } open spec fn add_spec(self, o: Fraction) -> Fraction { Fraction { v: Ghost(self.v@ + o.v@) } } }
impl Fraction {
    #[verifier::external_body] fn zero() -> (r: Fraction) ensures r.v@ == 0real { unimplemented!() }
    #[verifier::external_body] fn from(x: i32) -> (r: Fraction) ensures r.v@ == x as real { unimplemented!() }
    #[verifier::external_body] fn new(n: i64, d: i64) -> (r: Fraction) requires d != 0 ensures r.v@ == rdiv(n as real, d as real) { unimplemented!() }
    #[verifier::external_body] fn mul_ratio(self, n: i64, d: i64) -> (r: Fraction) requires d != 0 ensures r.v@ == rdiv(rmul(self.v@, n as real), d as real) { unimplemented!() }
    #[verifier::external_body] fn floor(self) -> (r: i64) requires i64::MIN <= self.v@.floor() <= i64::MAX ensures r == self.v@.floor() { unimplemented!() }
    #[verifier::external_body] fn fract(self) -> (r: Fraction) ensures r.v@ == self.v@ - self.v@.floor() as real { unimplemented!() }
}
pub uninterp spec fn chrome(s: ComputedStyle) -> i32;
#[verifier::external_body] fn horizontal_chrome(s: &ComputedStyle) -> (r: i32) ensures r == chrome(*s) { unimplemented!() }

// ---------------------------------------------------------------- the property: the horizontal row
pub open spec fn ml(c: LayoutChild) -> int { mcells(c.style.margin.left) }
pub open spec fn mr(c: LayoutChild) -> int { mcells(c.style.margin.right) }
/// the space in front of child k: adjacent margins collapse to the larger one
pub open spec fn gap(c: Seq<LayoutChild>, k: int) -> int { if k == 0 { ml(c[0]) } else { max_(ml(c[k]) - mr(c[k - 1]), 0) } }
pub open spec fn sum_margin(c: Seq<LayoutChild>, k: int) -> int decreases k { if k <= 0 { 0 } else { sum_margin(c, k - 1) + (gap(c, k - 1) + mr(c[k - 1])) } }
pub open spec fn automatic(c: LayoutChild) -> bool { match c.style.width { Some(w) => w.unit == Unit::Auto, None => true } }
pub open spec fn is_fr(c: LayoutChild) -> bool { (c.style.width is Some && c.style.width->0.unit == Unit::Fraction) || (automatic(c) && c.desired_size.width == u16::MAX) }
/// weights in thousandths
pub open spec fn weight(c: LayoutChild) -> int { if c.style.width is Some && c.style.width->0.unit == Unit::Fraction { trunc(rmul(c.style.width->0.value.v@, 1000real)) } else { 1000 } }
pub open spec fn percent_exact(x: real, whole: int) -> real { rdiv((whole * rnd(rmul(x, 1000real))) as real, 100000int as real) }
/// what a child that takes no share of the rest asks for, exactly
pub open spec fn exact(c: LayoutChild, a: Region, v: Viewport) -> real {
    if automatic(c) { c.desired_size.width as real } else {
        let w = c.style.width->0;
        if w.unit == Unit::Cells { boxed_width(cast(w.value.v@) as i32, c.style) as real } else { percent_exact(w.value.v@, basis(w.unit, a.width as int, a, v)) + if c.style.box_sizing == BoxSizing::BorderBox { 0real } else { chrome(c.style) as real } }
    }
}
/// the fraction of a cell carried to the next child
pub open spec fn carry(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> real decreases k { if k <= 0 { 0real } else if is_fr(c[k - 1]) { carry(c, a, v, k - 1) } else { let x = exact(c[k - 1], a, v) + carry(c, a, v, k - 1); x - x.floor() as real } }
pub open spec fn fixed(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int { (exact(c[k], a, v) + carry(c, a, v, k)).floor() }
pub open spec fn sum_fixed(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int decreases k { if k <= 0 { 0 } else { sum_fixed(c, a, v, k - 1) + if is_fr(c[k - 1]) { 0 } else { fixed(c, a, v, k - 1) } } }
pub open spec fn sum_weight(c: Seq<LayoutChild>, k: int) -> int decreases k { if k <= 0 { 0 } else { sum_weight(c, k - 1) + if is_fr(c[k - 1]) { weight(c[k - 1]) } else { 0 } } }
/// what is left for the children that share
pub open spec fn rest(c: Seq<LayoutChild>, a: Region, v: Viewport) -> int { max_(a.width - sum_fixed(c, a, v, c.len() as int) - sum_margin(c, c.len() as int), 0) }
pub open spec fn exact_share(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> real { rdiv(rmul(rest(c, a, v) as real, weight(c[k]) as real), sum_weight(c, c.len() as int) as real) }
pub open spec fn whole_share(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int { exact_share(c, a, v, k).floor() }
pub open spec fn sum_whole(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int decreases k { if k <= 0 { 0 } else { sum_whole(c, a, v, k - 1) + if is_fr(c[k - 1]) { whole_share(c, a, v, k - 1) } else { 0 } } }
/// the sharing children among the first k
pub open spec fn frs(c: Seq<LayoutChild>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if is_fr(c[k - 1]) { frs(c, k - 1).push(k - 1) } else { frs(c, k - 1) } }
pub open spec fn shared(c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool { sum_weight(c, c.len() as int) > 0 && rest(c, a, v) > 0 }
pub open spec fn left_over(c: Seq<LayoutChild>, a: Region, v: Viewport) -> int { rest(c, a, v) - sum_whole(c, a, v, c.len() as int) }
/// a sharing child's width: its share rounded down, the first ones one cell more until nothing is left over
pub open spec fn share(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int { if !shared(c, a, v) { 0 } else { whole_share(c, a, v, k) + if frs(c, k).len() < left_over(c, a, v) { 1int } else { 0 } } }
#[verifier::opaque] pub open spec fn base_of(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int { if is_fr(c[k]) { share(c, a, v, k) } else { fixed(c, a, v, k) } }
pub open spec fn width_of(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int { bounded_by(base_of(c, a, v, k), c[k].style.max_width, c[k].style.min_width, a.width as int, a, v) }
pub open spec fn height_of(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int {
    let s = c[k].style;
    let raw = match s.height {
        Some(h) => match h.unit { Unit::Auto => c[k].node.height_at(clip16(width_of(c, a, v, k)) as u16) as int, Unit::Fraction => a.height as int, Unit::Percent => boxed_height(cast(part(h, a.height as int, a, v)) as i32, s) as int, _ => boxed_height(cast(h.value.v@) as i32, s) as int },
        None => a.height as int,
    };
    let h = bounded_by(raw, s.max_height, s.min_height, a.height as int, a, v);
    if s.height is Some && s.height->0.unit == Unit::Auto { h } else { max_(h - mcells(s.margin.top) - mcells(s.margin.bottom), 0) }
}
pub open spec fn after(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int decreases k { if k <= 0 { a.x as int } else { after(c, a, v, k - 1) + gap(c, k - 1) + width_of(c, a, v, k - 1) + mr(c[k - 1]) } }
pub open spec fn in_row(p: WidgetPlacement, c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> bool {
    &&& p.child_index == c[k].index
    &&& p.region.x == after(c, a, v, k) + gap(c, k)
    &&& p.region.width == width_of(c, a, v, k)
    &&& p.region.y == a.y + mcells(c[k].style.margin.top)
    &&& p.region.height == height_of(c, a, v, k)
}
/// nothing comes near the limits of the machine's integers
pub open spec fn child_ok(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> bool {
    &&& style_small(c[k].style) && small(sum_margin(c, k)) && small(sum_margin(c, k + 1)) && small(sum_fixed(c, a, v, k)) && small(sum_fixed(c, a, v, k + 1)) && small(after(c, a, v, k)) && small(after(c, a, v, k + 1)) && small(fixed(c, a, v, k)) && small(width_of(c, a, v, k)) && small(height_raw(c, a, v, k))
    &&& c[k].style.width is Some ==> -0x4000_0000 <= rnd(rmul(c[k].style.width->0.value.v@, 1000real)) <= 0x4000_0000
    &&& 0 <= weight(c[k]) <= 0x4000_0000 && 0 <= sum_weight(c, k) <= 0x1000_0000_0000_0000
}
pub open spec fn height_raw(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int {
    let s = c[k].style;
    bounded_by(match s.height { Some(h) => match h.unit { Unit::Auto => c[k].node.height_at(clip16(width_of(c, a, v, k)) as u16) as int, Unit::Fraction => a.height as int, Unit::Percent => boxed_height(cast(part(h, a.height as int, a, v)) as i32, s) as int, _ => boxed_height(cast(h.value.v@) as i32, s) as int }, None => a.height as int }, s.max_height, s.min_height, a.height as int, a, v)
}
pub open spec fn row_ok(c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool { small(a.x as int) && small(a.y as int) && small(a.width as int) && small(sum_fixed(c, a, v, c.len() as int)) && small(sum_margin(c, c.len() as int)) && forall|k: int| 0 <= k < c.len() ==> #[trigger] child_ok(c, a, v, k) }

// ---------------------------------------------------------------- what follows for a row
/// the distance between consecutive children is exactly the larger of the two margins: no overlap, no stray gap
proof fn theorem_distance(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int, p: WidgetPlacement, q: WidgetPlacement)
    requires 0 <= k < c.len() - 1, in_row(p, c, a, v, k), in_row(q, c, a, v, k + 1),
    ensures q.region.x - (p.region.x + p.region.width) == max_(mr(c[k]), ml(c[k + 1])),
{ }
proof fn lemma_frs(c: Seq<LayoutChild>, k: int)
    requires 0 <= k <= c.len(),
    ensures frs(c, k).len() <= k, forall|q: int| #![trigger frs(c, k)[q]] 0 <= q < frs(c, k).len() ==> 0 <= frs(c, k)[q] < k && is_fr(c[frs(c, k)[q]]) && frs(c, frs(c, k)[q]).len() == q,
        forall|i: int| 0 <= i < k && is_fr(c[i]) ==> frs(c, i).len() < frs(c, k).len() && frs(c, k)[#[trigger] frs(c, i).len() as int] == i,
    decreases k,
{
    if k > 0 { lemma_frs(c, k - 1);
        assert forall|i: int| 0 <= i < k && is_fr(c[i]) implies frs(c, i).len() < frs(c, k).len() && frs(c, k)[#[trigger] frs(c, i).len() as int] == i by { if i < k - 1 { assert(frs(c, k - 1)[frs(c, i).len() as int] == i); } } }
}
proof fn lemma_distr(r: real, w: real, s: real, t: real) requires t > 0real ensures rdiv(rmul(r, s + w), t) == rdiv(rmul(r, s), t) + rdiv(rmul(r, w), t)
{ reveal(rmul); reveal(rdiv);
    assert(r * (s + w) == r * s + r * w) by(nonlinear_arith); let x = r * s; let y = r * w; assert((x + y) / t == x / t + y / t) by(nonlinear_arith) requires t > 0real; }
/// the exact shares add up to the rest, so the whole ones fall short by less than one cell each
proof fn lemma_short(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires 0 <= k <= c.len(), sum_weight(c, c.len() as int) > 0,
    ensures sum_whole(c, a, v, k) as real <= rdiv(rmul(rest(c, a, v) as real, sum_weight(c, k) as real), sum_weight(c, c.len() as int) as real),
        rdiv(rmul(rest(c, a, v) as real, sum_weight(c, k) as real), sum_weight(c, c.len() as int) as real) <= (sum_whole(c, a, v, k) + frs(c, k).len()) as real, decreases k,
{
    let r = rest(c, a, v) as real; let t = sum_weight(c, c.len() as int) as real;
    if k > 0 { lemma_short(c, a, v, k - 1); if is_fr(c[k - 1]) { lemma_distr(r, weight(c[k - 1]) as real, sum_weight(c, k - 1) as real, t); assert((sum_weight(c, k - 1) + weight(c[k - 1])) as real == sum_weight(c, k - 1) as real + weight(c[k - 1]) as real); } }
    else { reveal(rmul); reveal(rdiv); assert(rmul(r, 0real) == 0real) by(nonlinear_arith) requires rmul(r, 0real) == r * 0real; assert(0real / t == 0real) by(nonlinear_arith) requires t > 0real; }
}
pub open spec fn sum_share(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> int decreases k { if k <= 0 { 0 } else { sum_share(c, a, v, k - 1) + if is_fr(c[k - 1]) { share(c, a, v, k - 1) } else { 0 } } }
proof fn lemma_sum_share(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires 0 <= k <= c.len(), shared(c, a, v), left_over(c, a, v) >= 0, ensures sum_share(c, a, v, k) == sum_whole(c, a, v, k) + min_(frs(c, k).len() as int, left_over(c, a, v)), decreases k,
{ if k > 0 { lemma_sum_share(c, a, v, k - 1); } }
/// the children that share fill what the others leave, to the cell
proof fn theorem_fill(c: Seq<LayoutChild>, a: Region, v: Viewport)
    requires shared(c, a, v), ensures sum_share(c, a, v, c.len() as int) == rest(c, a, v), 0 <= left_over(c, a, v) <= frs(c, c.len() as int).len(),
{
    let n = c.len() as int; lemma_short(c, a, v, n);
    let r = rest(c, a, v) as real; let t = sum_weight(c, n) as real;
    assert(rdiv(rmul(r, t), t) == r) by { reveal(rmul); reveal(rdiv); assert((r * t) / t == r) by(nonlinear_arith) requires t > 0real; }
    lemma_sum_share(c, a, v, n);
}
proof fn lemma_share_range(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires 0 <= k < c.len(), is_fr(c[k]), weight(c[k]) >= 0, forall|j: int| 0 <= j < c.len() ==> weight(#[trigger] c[j]) >= 0, shared(c, a, v),
    ensures 0 <= whole_share(c, a, v, k) <= rest(c, a, v),
{
    lemma_weight_part(c, k, c.len() as int);
    let r = rest(c, a, v) as real; let t = sum_weight(c, c.len() as int) as real; let w = weight(c[k]) as real;
    reveal(rmul); reveal(rdiv);
    assert(0real <= (r * w) / t <= r) by(nonlinear_arith) requires 0real <= w <= t, t > 0real, r > 0real;
}
proof fn lemma_weight_part(c: Seq<LayoutChild>, k: int, n: int)
    requires 0 <= n <= c.len(), forall|j: int| 0 <= j < c.len() ==> weight(#[trigger] c[j]) >= 0,
    ensures sum_weight(c, n) >= 0, 0 <= k < n && is_fr(c[k]) ==> weight(c[k]) <= sum_weight(c, n), decreases n,
{ if n > 0 { lemma_weight_part(c, k, n - 1); assert(weight(c[n - 1]) >= 0); } }
proof fn lemma_sum_whole(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires 0 <= k <= c.len(), forall|j: int| 0 <= j < c.len() ==> weight(#[trigger] c[j]) >= 0, shared(c, a, v),
    ensures 0 <= sum_whole(c, a, v, k) <= rest(c, a, v), decreases c.len() - k,
{
    if k == c.len() { theorem_fill(c, a, v); lemma_whole_pos(c, a, v, k); } else { lemma_sum_whole(c, a, v, k + 1); lemma_whole_pos(c, a, v, k); if is_fr(c[k]) { lemma_share_range(c, a, v, k); } }
}
proof fn lemma_whole_pos(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int)
    requires 0 <= k <= c.len(), forall|j: int| 0 <= j < c.len() ==> weight(#[trigger] c[j]) >= 0, shared(c, a, v), ensures 0 <= sum_whole(c, a, v, k), decreases k,
{ if k > 0 { lemma_whole_pos(c, a, v, k - 1); if is_fr(c[k - 1]) { lemma_share_range(c, a, v, k - 1); } } }

// ---------------------------------------------------------------- the function under contract
#[verifier::external_body] fn nones32(n: usize) -> (r: Vec<Option<i32>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None { unimplemented!() }
#[verifier::external_body] fn nones64(n: usize) -> (r: Vec<Option<i64>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None { unimplemented!() }
#[verifier::external_body] fn zeros(n: usize) -> (r: Vec<i32>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == 0 { unimplemented!() }
impl F { #[verifier::external_body] fn to_i64(self) -> (r: i64) ensures i64::MIN <= trunc(self.v@) <= i64::MAX ==> r == trunc(self.v@) { unimplemented!() } }
proof fn lemma_rounding() ensures forall|x: real| trunc(#[trigger] rnd(x) as real) == rnd(x) { }
proof fn lemma_carry(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) ensures 0real <= carry(c, a, v, k) < 1real, decreases k { if k > 0 { lemma_carry(c, a, v, k - 1); } }
/// the widths found in the first pass
pub open spec fn found(fw: Option<i32>, fr: Option<i64>, c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) -> bool { if is_fr(c[k]) { fw is None && fr == Some(weight(c[k]) as i64) } else { fw == Some(fixed(c, a, v, k) as i32) && fr is None } }
//@ extract crates/textual/src/layouts/horizontal.rs fn Layout for HorizontalLayout::arrange
//@ ret r
//@ sub SIG:&mut self,\s*_parent_style: &ComputedStyle, ==>
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub let mut placements = Vec::with_capacity\([^;]*\); ==> let mut placements: Vec<WidgetPlacement> = Vec::new();
//@ sub \|value: f64, basis: i32\| \{ ==> |value: F, basis: i32| -> (fr: Fraction) requires -0x4000_0000 <= rnd(rmul(value.v@, 1000real)) <= 0x4000_0000 ensures fr.v@ == percent_exact(value.v@, basis as int) { proof { lemma_rounding(); lemma_product(basis as int, rnd(rmul(value.v@, 1000real))); }
//@ sub \|width: Fraction, style: &ComputedStyle\| (match style\s*\.box_sizing\s*\{.*?\n        \});\n ==> |width: Fraction, style: &ComputedStyle| -> (fr: Fraction) ensures fr.v@ == width.v@ + (if style.box_sizing == BoxSizing::BorderBox { 0real } else { chrome(*style) as real }) { \1 };
//@ sub tcss::types:: ==>
//@ sub vec!\[None; children\.len\(\)\];\s*let mut fr_values: Vec<Option<i64>> = vec!\[None; children\.len\(\)\]; ==> nones32(children.len()); let mut fr_values: Vec<Option<i64>> = nones64(children.len());
//@ sub vec!\[0; children\.len\(\)\] ==> zeros(children.len())
//@ sub for \(i, child\) in children\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..children.len() { let child = &children[i];
//@ sub for \(i, fr_value\) in fr_values\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..fr_values.len() { let fr_value = fr_values[i];
//@ sub for idx in fr_indices \{ ==> for fq in 0..fr_indices.len() { let idx = fr_indices[fq];
//@ sub let mut used = 0; ==> let mut used: i32 = 0;
//@ sub let mut fr_indices = Vec::new\(\); ==> let mut fr_indices: Vec<usize> = Vec::new();
//@ sub \*value\b ==> value
//@ sub (\w+)\[(\w+)\] = ([^;]*); ==> \1.set(\2, \3);
//@ sub (\w+)\[(\w+)\] \+= ([^;]*); ==> { let bump = \1[\2] + (\3); \1.set(\2, bump); }
//@ sub Fraction::ZERO ==> Fraction::zero()
//@ sub \(width\.value \* 1000\.0\) as i64 ==> (width.value * F::lit(1000)).to_i64()
//@ sub \(value \* 1000\.0\)\.round\(\) as i64 ==> (value * F::lit(1000)).round().to_i64()
//@ sub \(\((\w+)\.value / 100\.0\) \* ([\w.]+) as f64\) as i32 ==> ((\1.value / F::lit(100)) * F::of(\2)).to_i32()
//@ sub ([\w.]+\.value) as i32 ==> \1.to_i32()
//@ sub ([\w.]+)\.clamp\(0, u16::MAX as i32\) as u16 ==> clip(\1)
//@ sub fixed_widths\[i\]\.unwrap_or\(fr_widths\[i\]\) ==> (match fixed_widths[i] { Some(w) => w, None => fr_widths[i] })
//@ sub child_style\s*\.height\s*\.as_ref\(\)\s*\.map\(\|h\| (h\.unit == Unit::\w+)\)\s*\.unwrap_or\(false\) ==> (match &child_style.height { Some(h) => \1, None => false })
//@ sub? let height = if let Some\(h\) = &child_style\.height \{ ==> proof { assert(width == width_of(cs, available, viewport, i as int)); } let height = if let Some(h) = &child_style.height {
//@ sub? let is_auto_height = ==> proof { assert(height == height_raw(cs, available, viewport, i as int)); } let is_auto_height =
//@ nloops 4
//@ contract
    requires row_ok(children@, available, viewport),
    ensures r@.len() == children@.len(), forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> in_row(r@[k], children@, available, viewport, k),
//@ loop 1
    invariant row_ok(children@, available, viewport), fixed_widths@.len() == children@.len(), fr_values@.len() == children@.len(), forall|j: int| i <= j < children@.len() ==> (#[trigger] fr_values@[j]) is None && fixed_widths@[j] is None,
        forall|value: F, basis: i32| -0x4000_0000 <= rnd(rmul(value.v@, 1000real)) <= 0x4000_0000 ==> #[trigger] percent_to_fraction.requires((value, basis)),
        forall|value: F, basis: i32, fr: Fraction| #[trigger] percent_to_fraction.ensures((value, basis), fr) ==> fr.v@ == percent_exact(value.v@, basis as int),
        forall|w: Fraction, style: &ComputedStyle| #[trigger] apply_box_sizing_width_fraction.requires((w, style)),
        forall|w: Fraction, style: &ComputedStyle, fr: Fraction| #[trigger] apply_box_sizing_width_fraction.ensures((w, style), fr) ==> fr.v@ == w.v@ + (if style.box_sizing == BoxSizing::BorderBox { 0real } else { chrome(*style) as real }),
        forall|j: int| #![trigger fixed_widths@[j]] 0 <= j < i ==> found(fixed_widths@[j], fr_values@[j], children@, available, viewport, j),
        total_fr == sum_weight(children@, i as int), total_margin == sum_margin(children@, i as int), i > 0 ==> prev_margin_right == mr(children@[i - 1]), fixed_remainder.v@ == carry(children@, available, viewport, i as int), fixed_width_sum == sum_fixed(children@, available, viewport, i as int),
//@ loop_start 1
    proof { assert(child_ok(children@, available, viewport, i as int)); assert(fr_values@[i as int] is None); if i > 0 { assert(child_ok(children@, available, viewport, i - 1)); } lemma_carry(children@, available, viewport, i as int); }
//@ after_loop 1
    let ghost n = children@.len() as int; let ghost cs = children@; let ghost rs = rest(cs, available, viewport);
    proof { assert forall|j: int| 0 <= j < cs.len() implies 0 <= weight(#[trigger] cs[j]) <= 0x4000_0000 by { assert(child_ok(cs, available, viewport, j)); } lemma_frs(cs, n); }
//@ before_loop 2
    proof { assert(shared(cs, available, viewport)); }
//@ loop 2
    invariant cs == children@, n == cs.len(), rs == rest(cs, available, viewport), remaining_for_fr == rs, shared(cs, available, viewport), total_fr == sum_weight(cs, n), fixed_widths@.len() == n, fr_values@.len() == n, fr_widths@.len() == n, forall|j: int| 0 <= j < cs.len() ==> 0 <= weight(#[trigger] cs[j]) <= 0x4000_0000,
        forall|j: int| #![trigger fixed_widths@[j]] 0 <= j < n ==> found(fixed_widths@[j], fr_values@[j], cs, available, viewport, j), small(available.width as int), rs <= 0x1800_0000,
        used == sum_whole(cs, available, viewport, i as int), fr_indices@.len() == frs(cs, i as int).len(), forall|q: int| #![trigger fr_indices@[q]] 0 <= q < fr_indices@.len() ==> fr_indices@[q] == frs(cs, i as int)[q],
        forall|j: int| #![trigger fr_widths@[j]] 0 <= j < n ==> fr_widths@[j] == if j < i && is_fr(cs[j]) { whole_share(cs, available, viewport, j) } else { 0 },
//@ loop_start 2
    proof { let w0 = fixed_widths@[i as int]; assert(found(w0, fr_values@[i as int], cs, available, viewport, i as int)); assert(weight(cs[i as int]) >= 0); if is_fr(cs[i as int]) { lemma_share_range(cs, available, viewport, i as int); } lemma_sum_whole(cs, available, viewport, i as int); lemma_sum_whole(cs, available, viewport, i + 1); lemma_weight_fits(cs, available, viewport, i as int); }
//@ after_loop 2
    proof { lemma_sum_whole(cs, available, viewport, n); lemma_frs(cs, n); theorem_fill(cs, available, viewport); assert forall|j: int| 0 <= j < n && is_fr(cs[j]) implies 0 <= #[trigger] whole_share(cs, available, viewport, j) <= 0x1800_0000 by { assert(weight(cs[j]) >= 0); lemma_share_range(cs, available, viewport, j); } }
//@ before_loop 3
    let ghost l0 = leftover as int;
    proof { assert(l0 == left_over(cs, available, viewport)); }
//@ loop 3
    invariant_except_break leftover == l0 - fq, fq <= l0, forall|j: int| #![trigger fr_widths@[j]] 0 <= j < n ==> fr_widths@[j] == if is_fr(cs[j]) { whole_share(cs, available, viewport, j) + if frs(cs, j).len() < fq { 1int } else { 0 } } else { 0 },
    invariant cs == children@, n == cs.len(), l0 == left_over(cs, available, viewport), 0 <= l0 <= frs(cs, n).len(), l0 <= 0x4000_0000, fr_widths@.len() == n, fr_indices@.len() == frs(cs, n).len(), forall|q: int| #![trigger fr_indices@[q]] 0 <= q < fr_indices@.len() ==> fr_indices@[q] == frs(cs, n)[q],
        forall|q: int| #![trigger frs(cs, n)[q]] 0 <= q < frs(cs, n).len() ==> 0 <= frs(cs, n)[q] < n && is_fr(cs[frs(cs, n)[q]]) && frs(cs, frs(cs, n)[q]).len() == q,
        forall|j: int| 0 <= j < n && is_fr(cs[j]) ==> frs(cs, j).len() < frs(cs, n).len() && frs(cs, n)[#[trigger] frs(cs, j).len() as int] == j,
        forall|j: int| 0 <= j < n && is_fr(cs[j]) ==> 0 <= #[trigger] whole_share(cs, available, viewport, j) <= 0x1800_0000,
    ensures forall|j: int| #![trigger fr_widths@[j]] 0 <= j < n ==> fr_widths@[j] == if is_fr(cs[j]) { whole_share(cs, available, viewport, j) + if frs(cs, j).len() < l0 { 1int } else { 0 } } else { 0 },
//@ loop_start 3
    proof { let x = frs(cs, n)[fq as int]; assert(fr_indices@[fq as int] == x); assert(frs(cs, x).len() == fq); let w0 = fr_widths@[x]; assert(0 <= whole_share(cs, available, viewport, x)); }
//@ before_loop 4
    proof { assert forall|j: int| #![trigger fixed_widths@[j]] 0 <= j < n implies (match fixed_widths@[j] { Some(w) => w as int, None => fr_widths@[j] as int }) == base_of(cs, available, viewport, j) by { reveal(base_of); assert(found(fixed_widths@[j], fr_values@[j], cs, available, viewport, j)); assert(child_ok(cs, available, viewport, j)); let w0 = fr_widths@[j]; } }
//@ loop 4
    invariant row_ok(children@, available, viewport), cs == children@, n == cs.len(), fixed_widths@.len() == n, fr_widths@.len() == n,
        forall|j: int| #![trigger fixed_widths@[j]] 0 <= j < n ==> (match fixed_widths@[j] { Some(w) => w as int, None => fr_widths@[j] as int }) == base_of(cs, available, viewport, j),
        current_x == after(cs, available, viewport, i as int), i > 0 ==> prev_margin_right == mr(cs[i - 1]), placements@.len() == i,
        forall|k: int| #![trigger placements@[k]] 0 <= k < i ==> in_row(placements@[k], cs, available, viewport, k),
//@ loop_start 4
    proof { assert(child_ok(cs, available, viewport, i as int)); if i > 0 { assert(child_ok(cs, available, viewport, i - 1)); } let w0 = fixed_widths@[i as int]; }
//@ end
proof fn lemma_product(a: int, b: int) requires -0x8000_0000 <= a <= 0x7fff_ffff, -0x4000_0000 <= b <= 0x4000_0000 ensures -0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000
{ assert(-0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000) by(nonlinear_arith) requires -0x8000_0000 <= a <= 0x7fff_ffff, -0x4000_0000 <= b <= 0x4000_0000; }
proof fn lemma_weight_fits(c: Seq<LayoutChild>, a: Region, v: Viewport, k: int) ensures true { }
}
