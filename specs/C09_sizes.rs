use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

verus! {
//@ include REAL.rs
// ---------------------------------------------------------------- the code's types
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/geometry.rs enum Unit
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/geometry.rs struct Scalar
//@ sub f64 ==> F
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/geometry.rs struct Spacing
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/border.rs enum BorderKind
//@ sub? #\[default\] ==> 
//@ end
#[derive(Clone, Copy)]
pub struct RgbaColor { pub r: u8, pub g: u8, pub b: u8 }
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/border.rs struct BorderEdge
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/border.rs struct Border
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/layout.rs enum BoxSizing
//@ sub? #\[default\] ==> 
//@ end
/// the style fields the functions below look at
#[derive(Clone, Copy)]
pub struct ComputedStyle { pub width: Option<Scalar>, pub height: Option<Scalar>, pub box_sizing: BoxSizing, pub border: Border, pub padding: Spacing }
pub const DEFAULT_FIXED_HEIGHT: i32 = 3;
pub const DEFAULT_FIXED_WIDTH: i32 = 10;

// ---------------------------------------------------------------- the property
/// `p` percent of `whole`, to the nearest cell
pub open spec fn percent(p: real, whole: int) -> int { clampi(rnd(rmul(rdiv(p, 100real), whole as real))) }
pub open spec fn cells(s: Scalar) -> int { cast(s.value.v@) }
/// the height asked for: cells as given, percentages by unit, automatic from the content, the rest fills
pub open spec fn height_asked(h: Option<Scalar>, content: int, ah: int, aw: int, vw: int, vh: int) -> int {
    match h {
        None => ah,
        Some(s) => match s.unit {
            Unit::Cells => cells(s),
            Unit::Percent | Unit::Height => percent(s.value.v@, ah),
            Unit::Width => percent(s.value.v@, aw),
            Unit::ViewWidth => percent(s.value.v@, vw),
            Unit::ViewHeight => percent(s.value.v@, vh),
            Unit::Auto => content,
            Unit::Fraction => ah,
        },
    }
}
/// one size without content: automatic is `auto`, absent is `absent` (the units of another dimension are not claimed)
pub open spec fn asked(x: Option<Scalar>, whole: int, auto: int, absent: int, r: int) -> bool {
    match x {
        None => r == absent,
        Some(s) => match s.unit { Unit::Cells => r == cells(s), Unit::Percent => r == percent(s.value.v@, whole), Unit::Auto => r == auto, _ => true },
    }
}
pub open spec fn visible(e: BorderEdge) -> bool { e.kind != BorderKind::None && e.kind != BorderKind::Hidden }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn rows_around(s: ComputedStyle) -> int { one(visible(s.border.top)) + one(visible(s.border.bottom)) + cells(s.padding.top) + cells(s.padding.bottom) }
pub open spec fn columns_around(s: ComputedStyle) -> int { one(visible(s.border.left)) + one(visible(s.border.right)) + cells(s.padding.left) + cells(s.padding.right) }
pub open spec fn modest(s: ComputedStyle) -> bool {
    let k = 0x800_0000int;
    &&& -k <= cells(s.padding.top) <= k && -k <= cells(s.padding.bottom) <= k
    &&& -k <= cells(s.padding.left) <= k && -k <= cells(s.padding.right) <= k
}
proof fn percent_is_nearest(p: real, whole: int)
    requires -0x7fff_ffffreal <= p * (whole as real) / 100real <= 0x7fff_ffffreal - 1real
    ensures ({ let exact = p * (whole as real) / 100real; exact - 1real / 2real <= percent(p, whole) as real <= exact + 1real / 2real })
{
    reveal(rmul); reveal(rdiv);
    assert((p / 100real) * (whole as real) == p * (whole as real) / 100real) by (nonlinear_arith);
}
proof fn percent_of_ends(whole: int)
    requires 0 <= whole <= i32::MAX
    ensures percent(0real, whole) == 0, percent(100real, whole) == whole
{
    reveal(rmul); reveal(rdiv);
    assert((0real / 100real) * (whole as real) == 0real) by (nonlinear_arith);
    assert((100real / 100real) * (whole as real) == whole as real) by (nonlinear_arith);
}

// ---------------------------------------------------------------- the code
//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_width
//@ sub (\w+) as f64 ==> F::of(\1)
//@ sub \b(\d+)\.0\b ==> F::lit(\1)
//@ sub \.round\(\) as i32 ==> .round().to_i32()
//@ sub width\.value as i32 ==> width.value.to_i32()
//@ ret r
//@ contract
ensures asked(child_style.width, available_width as int, available_width as int, if fill_by_default { available_width as int } else { DEFAULT_FIXED_WIDTH as int }, r as int)
//@ start
proof { lemma_cast_rounded(); }
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_height
//@ sub (\w+) as f64 ==> F::of(\1)
//@ sub \b(\d+)\.0\b ==> F::lit(\1)
//@ sub \.round\(\) as i32 ==> .round().to_i32()
//@ sub height\.value as i32 ==> height.value.to_i32()
//@ ret r
//@ contract
ensures ({ let d = if fill_by_default { available_height as int } else { DEFAULT_FIXED_HEIGHT as int }; asked(child_style.height, available_height as int, d, d, r as int) })
//@ start
proof { lemma_cast_rounded(); }
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_width_fill
//@ ret r
//@ contract
ensures asked(child_style.width, available_width as int, available_width as int, available_width as int, r as int)
//@ end
//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_width_fixed
//@ ret r
//@ contract
ensures asked(child_style.width, available_width as int, available_width as int, DEFAULT_FIXED_WIDTH as int, r as int)
//@ end
//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_height_fixed
//@ ret r
//@ contract
ensures asked(child_style.height, available_height as int, DEFAULT_FIXED_HEIGHT as int, DEFAULT_FIXED_HEIGHT as int, r as int)
//@ end
//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_height_fill
//@ ret r
//@ contract
ensures asked(child_style.height, available_height as int, available_height as int, available_height as int, r as int)
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_width_with_intrinsic
//@ sub (available_\w+) as f64 ==> F::of(\1)
//@ sub \b(\d+)\.0\b ==> F::lit(\1)
//@ sub \.round\(\) as i32 ==> .round().to_i32()
//@ sub width\.value as i32 ==> width.value.to_i32()
//@ ret r
//@ contract
ensures asked(child_style.width, available_width as int, intrinsic_width as int, available_width as int, r as int),
    child_style.width.is_some() && child_style.width.unwrap().unit == Unit::Fraction ==> r == available_width
//@ start
proof { lemma_cast_rounded(); }
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_height_with_intrinsic
//@ ret r
//@ contract
ensures r == height_asked(child_style.height, intrinsic_height as int, available_height as int, available_height as int, available_height as int, available_height as int)
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn resolve_height_full
//@ sub (available_\w+|viewport_\w+) as f64 ==> F::of(\1)
//@ sub \b(\d+)\.0\b ==> F::lit(\1)
//@ sub \.round\(\) as i32 ==> .round().to_i32()
//@ sub height\.value as i32 ==> height.value.to_i32()
//@ ret r
//@ contract
ensures r == height_asked(child_style.height, intrinsic_height as int, available_height as int, available_width as int, viewport_width as int, viewport_height as int)
//@ start
proof { lemma_cast_rounded(); }
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn vertical_chrome
//@ sub? use tcss::types::border::BorderKind; ==> 
//@ sub (style\.padding\.\w+\.value) as i32 ==> \1.to_i32()
//@ ret r
//@ contract
requires modest(*style)
ensures r == rows_around(*style)
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn horizontal_chrome
//@ sub? use tcss::types::border::BorderKind; ==> 
//@ sub (style\.padding\.\w+\.value) as i32 ==> \1.to_i32()
//@ ret r
//@ contract
requires modest(*style)
ensures r == columns_around(*style)
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn apply_box_sizing_height
//@ ret r
//@ contract
requires modest(*style), i32::MIN <= css_height + rows_around(*style) <= i32::MAX
ensures r == if style.box_sizing == BoxSizing::ContentBox { css_height + rows_around(*style) } else { css_height as int }
//@ end

//@ extract crates/textual/src/layouts/size_resolver.rs fn apply_box_sizing_width
//@ ret r
//@ contract
requires modest(*style), i32::MIN <= css_width + columns_around(*style) <= i32::MAX
ensures r == if style.box_sizing == BoxSizing::ContentBox { css_width + columns_around(*style) } else { css_width as int }
//@ end
}
