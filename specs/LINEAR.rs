use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- the code's types
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/geometry.rs enum Unit
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/geometry.rs struct Scalar
//@ sub f64 ==> F
//@ end
#[derive(Clone, Copy)]
pub struct Spacing { pub top: Scalar, pub right: Scalar, pub bottom: Scalar, pub left: Scalar }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum BoxSizing { BorderBox, ContentBox }
/// the style fields the functions below look at
#[derive(Clone, Copy)]
pub struct ComputedStyle { pub margin: Spacing, pub width: Option<Scalar>, pub height: Option<Scalar>, pub min_width: Option<Scalar>, pub max_width: Option<Scalar>, pub min_height: Option<Scalar>, pub max_height: Option<Scalar>, pub box_sizing: BoxSizing, pub rest: Opaque }
/// everything else about a style or a widget
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Opaque { x: u8 }
impl Opaque { pub uninterp spec fn height_at(self, width: u16) -> u16;
    #[verifier::external_body] fn intrinsic_height_for_width(&self, width: u16) -> (r: u16) ensures r == self.height_at(width) { unimplemented!() } }
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Size
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Region { pub x: i32, pub y: i32, pub width: i32, pub height: i32 }
#[derive(Clone, Copy)]
pub struct LayoutChild { pub index: usize, pub style: ComputedStyle, pub desired_size: Size, pub node: Opaque }
pub
//@ extract crates/textual/src/layouts/mod.rs struct WidgetPlacement
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/layouts/mod.rs struct Viewport
//@ end
// the size resolver is under contract in C09: here any functions of their arguments
pub uninterp spec fn boxed_width(raw: i32, style: ComputedStyle) -> i32;
pub uninterp spec fn boxed_height(raw: i32, style: ComputedStyle) -> i32;
pub uninterp spec fn base_width(style: ComputedStyle, natural: u16, whole: i32) -> i32;
#[verifier::external_body] fn apply_box_sizing_width(raw: i32, style: &ComputedStyle) -> (r: i32) ensures r == boxed_width(raw, *style) { unimplemented!() }
#[verifier::external_body] fn apply_box_sizing_height(raw: i32, style: &ComputedStyle) -> (r: i32) ensures r == boxed_height(raw, *style) { unimplemented!() }
#[verifier::external_body] fn resolve_width_with_intrinsic(style: &ComputedStyle, natural: u16, whole: i32) -> (r: i32) ensures r == base_width(*style, natural, whole) { unimplemented!() }
// ---------------------------------------------------------------- lengths
/// coordinates and sizes far inside the 32-bit range
pub open spec fn small(x: int) -> bool { -0x800_0000 <= x <= 0x800_0000 }
pub open spec fn max_(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn min_(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn clip16(x: int) -> int { max_(0, min_(x, 65535)) }
fn clip(x: i32) -> (r: u16) ensures r == clip16(x as int) { if x < 0 { 0 } else if x > 65535 { 65535 } else { x as u16 } }
pub open spec fn mcells(s: Scalar) -> int { cast(s.value.v@) }
pub open spec fn style_small(s: ComputedStyle) -> bool { small(mcells(s.margin.left)) && small(mcells(s.margin.right)) && small(mcells(s.margin.top)) && small(mcells(s.margin.bottom)) }
/// the length a unit is a percentage of
pub open spec fn basis(u: Unit, own: int, region: Region, v: Viewport) -> int { match u { Unit::Percent => own, Unit::Width => region.width as int, Unit::Height => region.height as int, Unit::ViewWidth => v.width as int, _ => v.height as int } }
pub open spec fn part(s: Scalar, own: int, region: Region, v: Viewport) -> real { rmul(rdiv(s.value.v@, 100real), basis(s.unit, own, region, v) as real) }
pub open spec fn limit(s: Scalar, own: int, region: Region, v: Viewport) -> int { match s.unit { Unit::Cells | Unit::Fraction | Unit::Auto => mcells(s), _ => cast(part(s, own, region, v)) } }
/// at most the maximum, then at least the minimum
pub open spec fn bounded_by(x: int, hi: Option<Scalar>, lo: Option<Scalar>, own: int, region: Region, v: Viewport) -> int {
    let a = match hi { Some(m) => min_(x, limit(m, own, region, v)), None => x };
    match lo { Some(m) => max_(a, limit(m, own, region, v)), None => a }
}
}
