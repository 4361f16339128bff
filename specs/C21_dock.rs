use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

verus! {
//@ include REAL.rs
// ---------------------------------------------------------------- the code's types
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/layout.rs enum Dock
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/layout.rs enum Position
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/layout.rs enum Layout
//@ end
pub type LayoutKind = Layout;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/text.rs enum AlignHorizontal
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/text.rs enum AlignVertical
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/types/geometry.rs enum Unit
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/geometry.rs struct Scalar
//@ sub f64 ==> F
//@ end
#[derive(Clone, Copy)]
pub struct Spacing { pub top: Scalar, pub right: Scalar, pub bottom: Scalar, pub left: Scalar }
/// a layer's name: strings enter only through equality, so any type with equality stands for them
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Name { pub id: u64 }
pub uninterp spec fn name_of(text: Seq<char>) -> Name;
#[verifier::external_body] fn named(text: &str) -> (r: Name) ensures r == name_of(text@) { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Names { x: u8 }
impl View for Names { type V = Seq<Name>; uninterp spec fn view(&self) -> Seq<Name>; }
impl Names { #[verifier::external_body] fn list(&self) -> (r: Vec<Name>) ensures r@ == self@ { unimplemented!() } }
fn only(n: Name) -> (r: Vec<Name>) ensures r@ == seq![n] { let mut v = Vec::new(); v.push(n); v }
fn contains(v: &Vec<Name>, n: &Name) -> (r: bool) ensures r == v@.contains(*n) {
    let mut i = 0;
    while i < v.len() invariant 0 <= i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *n, decreases v@.len() - i,
    { if v[i] == *n { assert(v@[i as int] == *n); return true; } i += 1; }
    false
}
/// the style fields the functions below look at
#[derive(Clone, Copy)]
pub struct ComputedStyle { pub dock: Option<Dock>, pub position: Position, pub layout: Layout, pub align_horizontal: AlignHorizontal, pub align_vertical: AlignVertical, pub margin: Spacing, pub offset_x: Option<Scalar>, pub offset_y: Option<Scalar>, pub width: Option<Scalar>, pub height: Option<Scalar>, pub min_width: Option<Scalar>, pub max_width: Option<Scalar>, pub min_height: Option<Scalar>, pub max_height: Option<Scalar>, pub layer: Option<Name>, pub layers: Option<Names>, pub rest: Opaque }
/// everything else about a style or a widget
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Opaque { x: u8 }
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Size
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Region { pub x: i32, pub y: i32, pub width: i32, pub height: i32 }
impl Region { fn new(x: i32, y: i32, width: i32, height: i32) -> (r: Region) ensures r == (Region { x, y, width, height }) { Region { x, y, width, height } } }
#[derive(Clone, Copy)]
pub struct LayoutChild { pub index: usize, pub style: ComputedStyle, pub desired_size: Size, pub node: Opaque }
pub
//@ extract crates/textual/src/layouts/mod.rs struct WidgetPlacement
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/layouts/mod.rs struct Viewport
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/layouts/mod.rs struct DockSpacing
//@ sub (?m)^(\s*)(\w+): ==> \1pub \2:
//@ end
fn default_spacing() -> (r: DockSpacing) ensures r == (DockSpacing { top: 0, right: 0, bottom: 0, left: 0 }) { DockSpacing { top: 0, right: 0, bottom: 0, left: 0 } }
// the layouts themselves are under contract elsewhere (C06, C07, C08): here any function of their arguments
pub uninterp spec fn laid_out(kind: Layout, style: ComputedStyle, children: Seq<LayoutChild>, region: Region, viewport: Viewport) -> Seq<WidgetPlacement>;
/// the same after a container's own configuration of the layout
pub uninterp spec fn configured_out(kind: Layout, style: ComputedStyle, children: Seq<LayoutChild>, region: Region, viewport: Viewport) -> Seq<WidgetPlacement>;
/// what a widget needs and what borders and padding add are under contract elsewhere (C05, C09)
pub uninterp spec fn boxed_width(raw: i32, style: ComputedStyle) -> i32;
pub uninterp spec fn boxed_height(raw: i32, style: ComputedStyle) -> i32;
#[verifier::external_body] fn apply_box_sizing_width(raw: i32, style: &ComputedStyle) -> (r: i32) ensures r == boxed_width(raw, *style) { unimplemented!() }
#[verifier::external_body] fn apply_box_sizing_height(raw: i32, style: &ComputedStyle) -> (r: i32) ensures r == boxed_height(raw, *style) { unimplemented!() }
impl Opaque { pub uninterp spec fn height_at(self, width: u16) -> u16;
    #[verifier::external_body] fn intrinsic_height_for_width(&self, width: u16) -> (r: u16) ensures r == self.height_at(width) { unimplemented!() } }
/// the length a unit is a percentage of
pub open spec fn basis(u: Unit, own: int, region: Region, v: Viewport) -> int { match u { Unit::Percent => own, Unit::Width => region.width as int, Unit::Height => region.height as int, Unit::ViewWidth => v.width as int, _ => v.height as int } }
pub open spec fn part(s: Scalar, own: int, region: Region, v: Viewport) -> real { rmul(rdiv(s.value.v@, 100real), basis(s.unit, own, region, v) as real) }
pub open spec fn limit(s: Scalar, own: int, region: Region, v: Viewport) -> int { match s.unit { Unit::Cells | Unit::Fraction | Unit::Auto => mcells(s), _ => cast(part(s, own, region, v)) } }
pub open spec fn asked(s: Scalar, own: int, natural: int, region: Region, v: Viewport) -> int { match s.unit { Unit::Cells => mcells(s), Unit::Fraction => own, Unit::Auto => natural, _ => clampi(rnd(part(s, own, region, v))) } }
pub open spec fn bounded_by(x: int, hi: Option<Scalar>, lo: Option<Scalar>, own: int, region: Region, v: Viewport) -> int {
    let a = match hi { Some(m) => min_(x, limit(m, own, region, v)), None => x };
    match lo { Some(m) => max_(a, limit(m, own, region, v)), None => a }
}
pub open spec fn absolute_width(c: LayoutChild, region: Region, v: Viewport) -> int {
    let natural = if c.desired_size.width == u16::MAX { clip16(region.width as int) } else { c.desired_size.width as int };
    let w = match c.style.width { Some(w) => boxed_width(asked(w, region.width as int, natural, region, v) as i32, c.style) as int, None => natural };
    bounded_by(w, c.style.max_width, c.style.min_width, region.width as int, region, v)
}
pub open spec fn clip16(x: int) -> int { max_(0, min_(x, 65535)) }
pub open spec fn absolute_height(c: LayoutChild, region: Region, v: Viewport) -> int {
    let natural = c.node.height_at(clip16(absolute_width(c, region, v)) as u16) as int;
    let h = match c.style.height { Some(h) => boxed_height(asked(h, region.height as int, natural, region, v) as i32, c.style) as int, None => natural };
    bounded_by(h, c.style.max_height, c.style.min_height, region.height as int, region, v)
}
/// as wide and as high as its own style asks, within its limits, never negative
pub open spec fn absolute_size(c: LayoutChild, region: Region, v: Viewport) -> (int, int) { (max_(absolute_width(c, region, v), 0), max_(absolute_height(c, region, v), 0)) }
pub open spec fn absolute_ok(c: Seq<LayoutChild>, v: Viewport) -> bool { forall|i: int, r: Region| 0 <= i < c.len() && region_small(r) && c[i].style.position == Position::Absolute ==> abs_small(#[trigger] absolute_size(c[i], r, v)) }
pub open spec fn abs_small(p: (int, int)) -> bool { small(p.0) && small(p.1) }
pub open spec fn min_(a: int, b: int) -> int { if a < b { a } else { b } }
pub struct GridLayout; pub struct VerticalLayout; pub struct HorizontalLayout;
pub open spec fn placements_ok(p: Seq<WidgetPlacement>) -> bool { forall|i: int| 0 <= i < p.len() ==> region_ok((#[trigger] p[i]).region) }
impl GridLayout { fn default() -> GridLayout { GridLayout } #[verifier::external_body] fn arrange(&mut self, s: &ComputedStyle, c: &Vec<LayoutChild>, region: Region, v: Viewport) -> (r: Vec<WidgetPlacement>) ensures r@ == laid_out(Layout::Grid, *s, c@, region, v), placements_ok(r@) { unimplemented!() } #[verifier::external_body] fn arrange_configured(&mut self, s: &ComputedStyle, c: &Vec<LayoutChild>, region: Region, v: Viewport) -> (r: Vec<WidgetPlacement>) ensures r@ == configured_out(Layout::Grid, *s, c@, region, v), placements_ok(r@) { unimplemented!() } }
impl VerticalLayout { #[verifier::external_body] fn arrange(&mut self, s: &ComputedStyle, c: &Vec<LayoutChild>, region: Region, v: Viewport) -> (r: Vec<WidgetPlacement>) ensures r@ == laid_out(Layout::Vertical, *s, c@, region, v), placements_ok(r@) { unimplemented!() } #[verifier::external_body] fn arrange_configured(&mut self, s: &ComputedStyle, c: &Vec<LayoutChild>, region: Region, v: Viewport) -> (r: Vec<WidgetPlacement>) ensures r@ == configured_out(Layout::Vertical, *s, c@, region, v), placements_ok(r@) { unimplemented!() } }
impl HorizontalLayout { #[verifier::external_body] fn arrange(&mut self, s: &ComputedStyle, c: &Vec<LayoutChild>, region: Region, v: Viewport) -> (r: Vec<WidgetPlacement>) ensures r@ == laid_out(Layout::Horizontal, *s, c@, region, v), placements_ok(r@) { unimplemented!() } #[verifier::external_body] fn arrange_configured(&mut self, s: &ComputedStyle, c: &Vec<LayoutChild>, region: Region, v: Viewport) -> (r: Vec<WidgetPlacement>) ensures r@ == configured_out(Layout::Horizontal, *s, c@, region, v), placements_ok(r@) { unimplemented!() } }


// ---------------------------------------------------------------- the property
/// coordinates and sizes far inside the 32-bit range
pub open spec fn small(x: int) -> bool { -0x800_0000 <= x <= 0x800_0000 }
pub open spec fn region_ok(r: Region) -> bool { small(r.x as int) && small(r.y as int) && small(r.width as int) && small(r.height as int) }
pub open spec fn max_(a: int, b: int) -> int { if a > b { a } else { b } }
/// against its edge, along the whole parent, as thick as it asks for
pub open spec fn docked_region(c: LayoutChild, a: Region) -> Region {
    let w = c.desired_size.width as i32; let h = c.desired_size.height as i32;
    match c.style.dock {
        Some(Dock::Top) => Region { x: a.x, y: a.y, width: a.width, height: h },
        Some(Dock::Bottom) => Region { x: a.x, y: (a.y + a.height - h) as i32, width: a.width, height: h },
        Some(Dock::Left) => Region { x: a.x, y: a.y, width: w, height: a.height },
        _ => Region { x: (a.x + a.width - w) as i32, y: a.y, width: w, height: a.height },
    }
}
/// the thickest strip docked at an edge
pub open spec fn thickest(c: Seq<LayoutChild>, d: Dock) -> int decreases c.len() {
    if c.len() == 0 { 0 } else {
        let l = c.last();
        let t = thickest(c.drop_last(), d);
        if l.style.dock == Some(d) { max_(t, if d == Dock::Top || d == Dock::Bottom { l.desired_size.height as int } else { l.desired_size.width as int }) } else { t }
    }
}
pub open spec fn spacing_of(c: Seq<LayoutChild>) -> DockSpacing { DockSpacing { top: thickest(c, Dock::Top) as i32, right: thickest(c, Dock::Right) as i32, bottom: thickest(c, Dock::Bottom) as i32, left: thickest(c, Dock::Left) as i32 } }
/// the parent minus the docked strips
pub open spec fn content(a: Region, s: DockSpacing) -> Region { Region { x: (a.x + s.left) as i32, y: (a.y + s.top) as i32, width: max_(a.width - (s.left + s.right), 0) as i32, height: max_(a.height - (s.top + s.bottom), 0) as i32 } }
pub open spec fn docks(c: LayoutChild) -> bool { c.style.dock is Some }
pub open spec fn floats(c: LayoutChild) -> bool { !docks(c) && c.style.position == Position::Absolute }
pub open spec fn flows(c: LayoutChild) -> bool { !docks(c) && c.style.position != Position::Absolute }
/// 0: docked, 1: out of the flow, 2: in the flow, 3: not docked
pub open spec fn kind(c: LayoutChild, k: int) -> bool { if k == 0 { docks(c) } else if k == 1 { floats(c) } else if k == 2 { flows(c) } else { !docks(c) } }
/// the children of one kind, in order
pub open spec fn pick(c: Seq<LayoutChild>, k: int) -> Seq<LayoutChild> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else if kind(c.last(), k) { pick(c.drop_last(), k).push(c.last()) } else { pick(c.drop_last(), k) }
}
proof fn lemma_pick(c: Seq<LayoutChild>, k: int)
    ensures forall|i: int| 0 <= i < pick(c, k).len() ==> kind(#[trigger] pick(c, k)[i], k), pick(c, k).len() <= c.len(), forall|i: int| #![trigger pick(c, k)[i]] 0 <= i < pick(c, k).len() ==> exists|j: int| 0 <= j < c.len() && c[j] == pick(c, k)[i], decreases c.len(),
{ if c.len() > 0 { lemma_pick(c.drop_last(), k); let p = pick(c.drop_last(), k);
    assert forall|i: int| #![trigger pick(c, k)[i]] 0 <= i < pick(c, k).len() implies exists|j: int| 0 <= j < c.len() && c[j] == pick(c, k)[i] by {
        if i < p.len() { assert(pick(c, k)[i] == p[i]); let j = choose|j: int| 0 <= j < c.drop_last().len() && c.drop_last()[j] == p[i]; assert(c[j] == p[i]); } else { assert(c[c.len() - 1] == pick(c, k)[i]); }
    } } }
proof fn lemma_pick_twice(c: Seq<LayoutChild>, k: int)
    requires k == 1 || k == 2, ensures pick(pick(c, 3), k) == pick(c, k), decreases c.len(),
{ if c.len() > 0 { lemma_pick_twice(c.drop_last(), k); if kind(c.last(), 3) { assert(pick(c.drop_last(), 3).push(c.last()).drop_last() =~= pick(c.drop_last(), 3)); } } }
/// the margin box of a placement
pub open spec fn owner(p: WidgetPlacement, c: Seq<LayoutChild>, n: int) -> Option<LayoutChild> decreases c.len() - n {
    if n < 0 || n >= c.len() { None } else if c[n].index == p.child_index { Some(c[n]) } else { owner(p, c, n + 1) }
}
pub open spec fn mcells(s: Scalar) -> int { cast(s.value.v@) }
pub open spec fn left_of(p: WidgetPlacement, c: Seq<LayoutChild>) -> int { p.region.x - match owner(p, c, 0) { Some(k) => mcells(k.style.margin.left), None => 0 } }
pub open spec fn top_of(p: WidgetPlacement, c: Seq<LayoutChild>) -> int { p.region.y - match owner(p, c, 0) { Some(k) => mcells(k.style.margin.top), None => 0 } }
pub open spec fn right_of(p: WidgetPlacement, c: Seq<LayoutChild>) -> int { p.region.x + p.region.width + match owner(p, c, 0) { Some(k) => mcells(k.style.margin.right), None => 0 } }
pub open spec fn bottom_of(p: WidgetPlacement, c: Seq<LayoutChild>) -> int { p.region.y + p.region.height + match owner(p, c, 0) { Some(k) => mcells(k.style.margin.bottom), None => 0 } }
/// b is the smallest box around all the margin boxes
pub open spec fn bounds_of(b: Region, p: Seq<WidgetPlacement>, c: Seq<LayoutChild>) -> bool {
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> b.x <= left_of(p[i], c) && b.y <= top_of(p[i], c) && right_of(p[i], c) <= b.x + b.width && bottom_of(p[i], c) <= b.y + b.height
    &&& exists|i: int| #![trigger p[i]] 0 <= i < p.len() && b.x == left_of(p[i], c)
    &&& exists|i: int| #![trigger p[i]] 0 <= i < p.len() && b.y == top_of(p[i], c)
    &&& exists|i: int| #![trigger p[i]] 0 <= i < p.len() && b.x + b.width == right_of(p[i], c)
    &&& exists|i: int| #![trigger p[i]] 0 <= i < p.len() && b.y + b.height == bottom_of(p[i], c)
}
pub open spec fn margins_ok(c: Seq<LayoutChild>) -> bool { forall|i: int| 0 <= i < c.len() ==> style_small((#[trigger] c[i]).style) }
pub open spec fn style_small(s: ComputedStyle) -> bool { small(mcells(s.margin.left)) && small(mcells(s.margin.right)) && small(mcells(s.margin.top)) && small(mcells(s.margin.bottom)) }
pub open spec fn share_x(a: AlignHorizontal, free: int) -> int { match a { AlignHorizontal::Left => 0, AlignHorizontal::Center => max_(free, 0) / 2, AlignHorizontal::Right => max_(free, 0) } }
pub open spec fn share_y(a: AlignVertical, free: int) -> int { match a { AlignVertical::Top => 0, AlignVertical::Middle => max_(free, 0) / 2, AlignVertical::Bottom => max_(free, 0) } }
/// all shifted by the same amount, nothing else changed
pub open spec fn shifted(a: Seq<WidgetPlacement>, b: Seq<WidgetPlacement>, dx: int, dy: int) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> b[i].child_index == a[i].child_index && b[i].region.width == a[i].region.width && b[i].region.height == a[i].region.height && b[i].region.x == a[i].region.x + dx && b[i].region.y == a[i].region.y + dy
}
pub open spec fn aligned(a: Seq<WidgetPlacement>, b: Seq<WidgetPlacement>, c: Seq<LayoutChild>, s: ComputedStyle, region: Region) -> bool {
    if a.len() == 0 || (s.align_horizontal == AlignHorizontal::Left && s.align_vertical == AlignVertical::Top) { a == b } else { exists|g: Region| #[trigger] bounds_of(g, a, c) && shifted(a, b, share_x(s.align_horizontal, region.width - g.width), share_y(s.align_vertical, region.height - g.height)) }
}
pub open spec fn percent_of(s: Scalar, basis: int) -> int { cast(rmul(rdiv(s.value.v@, 100real), basis as real)) }
pub open spec fn own_offset(s: Option<Scalar>, r: Region, v: Viewport, horizontal: bool) -> int {
    match s {
        None => 0,
        Some(s) => match s.unit {
            Unit::Percent => percent_of(s, if horizontal { r.width as int } else { r.height as int }),
            Unit::ViewWidth => percent_of(s, v.width as int),
            Unit::ViewHeight => percent_of(s, v.height as int),
            Unit::Width => percent_of(s, r.width as int),
            Unit::Height => percent_of(s, r.height as int),
            _ => mcells(s),
        },
    }
}
/// a child's own offset moves that child only
pub open spec fn moved_one(p: WidgetPlacement, q: WidgetPlacement, c: Seq<LayoutChild>, v: Viewport) -> bool {
    let (dx, dy) = match owner(p, c, 0) { Some(k) => (own_offset(k.style.offset_x, p.region, v, true), own_offset(k.style.offset_y, p.region, v, false)), None => (0, 0) };
    q.child_index == p.child_index && q.region.width == p.region.width && q.region.height == p.region.height && q.region.x == p.region.x + dx && q.region.y == p.region.y + dy
}
pub open spec fn moved(a: Seq<WidgetPlacement>, b: Seq<WidgetPlacement>, c: Seq<LayoutChild>, v: Viewport) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> moved_one(a[i], b[i], c, v)
}
pub open spec fn offs_ok(c: LayoutChild, r: Region, v: Viewport) -> bool { small(own_offset(c.style.offset_x, r, v, true)) && small(own_offset(c.style.offset_y, r, v, false)) }
pub open spec fn offsets_ok(c: Seq<LayoutChild>, v: Viewport) -> bool { forall|i: int, r: Region| 0 <= i < c.len() && region_small(r) ==> #[trigger] offs_ok(c[i], r, v) }
pub open spec fn region_small(r: Region) -> bool { -0x4000_0000 <= r.x <= 0x4000_0000 && -0x4000_0000 <= r.y <= 0x4000_0000 && small(r.width as int) && small(r.height as int) }
proof fn lemma_owner(p: WidgetPlacement, c: Seq<LayoutChild>, n: int)
    requires 0 <= n <= c.len(),
    ensures owner(p, c, n) is Some ==> exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == owner(p, c, n)->0, decreases c.len() - n,
{ if n < c.len() && c[n].index != p.child_index { lemma_owner(p, c, n + 1); } }
fn find_child<'a>(c: &'a Vec<LayoutChild>, p: &WidgetPlacement) -> (r: Option<&'a LayoutChild>)
    ensures match r { Some(k) => owner(*p, c@, 0) == Some(*k), None => owner(*p, c@, 0) is None }, r is Some ==> exists|i: int| 0 <= i < c@.len() && #[trigger] c@[i] == *r->0,
{
    let mut i = 0;
    while i < c.len()
        invariant 0 <= i <= c@.len(), owner(*p, c@, 0) == owner(*p, c@, i as int), decreases c@.len() - i,
    { if c[i].index == p.child_index { return Some(&c[i]); } i += 1; }
    None
}

// ---------------------------------------------------------------- functions under contract
//@ extract crates/textual/src/layouts/mod.rs fn arrange_docked_widgets
//@ ret r
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub DockSpacing::default\(\) ==> default_spacing()
//@ sub for child in docked\.iter\(\) \{ ==> for dk in 0..docked.len() { let child = &docked[dk];
//@ sub child\s*\.style\s*\.dock\s*\.expect\("[^"]*"\) ==> (match child.style.dock { Some(d) => d, None => { return (placements, spacing); } })
//@ sub (spacing\.\w+)\.max\((\w+)\) ==> imax(\1, \2)
//@ sub let mut placements = Vec::new\(\); ==> let mut placements: Vec<WidgetPlacement> = Vec::new();
//@ nloops 1
//@ contract
    requires region_ok(available), forall|i: int| 0 <= i < docked@.len() ==> docks(#[trigger] docked@[i]),
    ensures r.0@.len() == docked@.len(), forall|i: int| #![trigger r.0@[i]] 0 <= i < docked@.len() ==> r.0@[i].child_index == docked@[i].index && r.0@[i].region == docked_region(docked@[i], available),
        r.1 == spacing_of(docked@), 0 <= r.1.top <= 0xffff, 0 <= r.1.right <= 0xffff, 0 <= r.1.bottom <= 0xffff, 0 <= r.1.left <= 0xffff,
//@ loop 1
    invariant region_ok(available), forall|i: int| 0 <= i < docked@.len() ==> docks(#[trigger] docked@[i]), placements@.len() == dk,
        forall|i: int| #![trigger placements@[i]] 0 <= i < dk ==> placements@[i].child_index == docked@[i].index && placements@[i].region == docked_region(docked@[i], available),
        spacing == spacing_of(docked@.take(dk as int)), 0 <= spacing.top <= 0xffff, 0 <= spacing.right <= 0xffff, 0 <= spacing.bottom <= 0xffff, 0 <= spacing.left <= 0xffff,
        thickest(docked@.take(dk as int), Dock::Top) == spacing.top, thickest(docked@.take(dk as int), Dock::Bottom) == spacing.bottom, thickest(docked@.take(dk as int), Dock::Left) == spacing.left, thickest(docked@.take(dk as int), Dock::Right) == spacing.right,
//@ loop_start 1
    proof { assert(docked@.take(dk + 1).drop_last() =~= docked@.take(dk as int)); assert(docks(docked@[dk as int])); }
//@ after_loop 1
    proof { assert(docked@.take(docked@.len() as int) =~= docked@); }
//@ end

//@ extract crates/textual/src/layouts/mod.rs fn get_placement_bounds_with_margins
//@ ret r
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub SIG:&\[WidgetPlacement\] ==> &Vec<WidgetPlacement>
//@ sub placements\.is_empty\(\) ==> (placements.len() == 0)
//@ sub for p in placements \{ ==> for pk in 0..placements.len() { let p = &placements[pk];
//@ sub children\.iter\(\)\.find\(\|child\| child\.index == p\.child_index\) ==> find_child(children, p)
//@ sub style\.margin\.(\w+)\.value as i32 ==> style.margin.\1.value.to_i32()
//@ sub = (\w+)\.(min|max)\(([^;]*)\); ==> = i\2(\1, \3);
//@ nloops 1
//@ contract
    requires placements_ok(placements@), margins_ok(children@),
    ensures placements@.len() > 0 ==> bounds_of(r, placements@, children@) && -0x2800_0000 <= r.width <= 0x2800_0000 && -0x2800_0000 <= r.height <= 0x2800_0000,
//@ loop 1
    invariant placements_ok(placements@), margins_ok(children@),
        pk > 0 ==> -0x1000_0000 <= min_x <= 0x1000_0000 && -0x1000_0000 <= min_y <= 0x1000_0000 && -0x1800_0000 <= max_x <= 0x1800_0000 && -0x1800_0000 <= max_y <= 0x1800_0000, pk == 0 ==> min_x == i32::MAX && min_y == i32::MAX && max_x == i32::MIN && max_y == i32::MIN,
        forall|i: int| #![trigger placements@[i]] 0 <= i < pk ==> min_x <= left_of(placements@[i], children@) && min_y <= top_of(placements@[i], children@) && right_of(placements@[i], children@) <= max_x && bottom_of(placements@[i], children@) <= max_y,
        pk > 0 ==> exists|i: int| #![trigger placements@[i]] 0 <= i < pk && min_x == left_of(placements@[i], children@),
        pk > 0 ==> exists|i: int| #![trigger placements@[i]] 0 <= i < pk && min_y == top_of(placements@[i], children@),
        pk > 0 ==> exists|i: int| #![trigger placements@[i]] 0 <= i < pk && max_x == right_of(placements@[i], children@),
        pk > 0 ==> exists|i: int| #![trigger placements@[i]] 0 <= i < pk && max_y == bottom_of(placements@[i], children@),
//@ loop_start 1
    proof { assert(region_ok(placements@[pk as int].region)); lemma_owner(placements@[pk as int], children@, 0); }
//@ end

//@ extract crates/textual/src/layouts/mod.rs fn resolve_absolute_placement
//@ ret r
//@ sub use tcss::types::geometry::\w+; ==>
//@ sub size_resolver:: ==>
//@ sub \(\((\w+)\.value / 100\.0\) \* ([\w.]+) as f64\)\.round\(\) as i32 ==> ((\1.value / F::lit(100)) * F::of(\2)).round().to_i32()
//@ sub \(\((\w+)\.value / 100\.0\) \* ([\w.]+) as f64\) as i32 ==> ((\1.value / F::lit(100)) * F::of(\2)).to_i32()
//@ sub \((\w+)\.value / 100\.0\) \* ([\w.]+) as f64 ==> (\1.value / F::lit(100)) * F::of(\2)
//@ sub (\w+\.value|max_height_value|min_height_value) as i32 ==> \1.to_i32()
//@ sub ([\w.]+)\.clamp\(0, u16::MAX as i32\) as u16 ==> clip(\1)
//@ contract
    ensures r.child_index == child.index, r.region.x == available.x, r.region.y == available.y, r.region.width == absolute_size(*child, available, viewport).0, r.region.height == absolute_size(*child, available, viewport).1,
//@ start
    proof { lemma_cast_rounded(); }
//@ end
fn clip(x: i32) -> (r: u16) ensures r == clip16(x as int) { if x < 0 { 0 } else if x > 65535 { 65535 } else { x as u16 } }

//@ extract crates/textual/src/layouts/mod.rs fn apply_alignment
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub SIG:&mut \[WidgetPlacement\] ==> &mut Vec<WidgetPlacement>
//@ sub use tcss::types::\w+; ==>
//@ sub placements\.is_empty\(\) ==> (placements.len() == 0)
//@ sub for placement in placements \{ ==> let count = placements.len(); for ak in 0..count { let placement = &mut placements[ak];
//@ nloops 1
//@ contract
    requires placements_ok(old(placements)@), margins_ok(children@), small(available.width as int), small(available.height as int),
    ensures aligned(old(placements)@, final(placements)@, children@, *parent_style, available), forall|i: int| 0 <= i < final(placements)@.len() ==> region_small((#[trigger] final(placements)@[i]).region),
//@ start
    let ghost before = placements@;
    proof { assert(shifted(before, before, 0, 0)); assert(forall|i: int| 0 <= i < before.len() ==> region_ok((#[trigger] before[i]).region)); }
//@ before_loop 1
    let ghost dx = offset_x as int; let ghost dy = offset_y as int;
    proof { assert(bounds_of(bounds, before, children@)); assert(dx == share_x(parent_style.align_horizontal, available.width - bounds.width)); assert(dy == share_y(parent_style.align_vertical, available.height - bounds.height)); }
//@ loop 1
    invariant count == before.len(), placements@.len() == before.len(), placements_ok(before), dx == offset_x, dy == offset_y, 0 <= dx <= 0x3000_0000, 0 <= dy <= 0x3000_0000,
        bounds_of(bounds, before, children@), dx == share_x(parent_style.align_horizontal, available.width - bounds.width), dy == share_y(parent_style.align_vertical, available.height - bounds.height),
        forall|i: int| #![trigger placements@[i]] 0 <= i < ak ==> placements@[i].child_index == before[i].child_index && placements@[i].region.width == before[i].region.width && placements@[i].region.height == before[i].region.height && placements@[i].region.x == before[i].region.x + dx && placements@[i].region.y == before[i].region.y + dy,
        forall|i: int| #![trigger placements@[i]] ak <= i < before.len() ==> placements@[i] == before[i],
//@ loop_start 1
    proof { assert(region_ok(before[ak as int].region)); assert(placements@[ak as int] == before[ak as int]); }
//@ after_loop 1
    proof { assert(shifted(before, placements@, dx, dy)); assert forall|i: int| 0 <= i < placements@.len() implies region_small((#[trigger] placements@[i]).region) by { assert(region_ok(before[i].region)); } }
//@ end

//@ extract crates/textual/src/layouts/mod.rs fn apply_offset
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub SIG:&mut \[WidgetPlacement\] ==> &mut Vec<WidgetPlacement>
//@ sub use tcss::types::geometry::\w+; ==>
//@ sub \(\(scalar\.value / 100\.0\) \* ([\w.]+) as f64\) as i32 ==> ((scalar.value / F::lit(100)) * F::of(\1)).to_i32()
//@ sub scalar\.value as i32 ==> scalar.value.to_i32()
//@ sub children\s*\.iter\(\)\s*\.find\(\|child\| child\.index == placement\.child_index\) ==> find_child(children, &*placement)
//@ sub for placement in placements \{ ==> let count = placements.len(); for ok in 0..count { let placement = &mut placements[ok];
//@ nloops 1
//@ contract
    requires forall|i: int| 0 <= i < old(placements)@.len() ==> region_small((#[trigger] old(placements)@[i]).region), offsets_ok(children@, viewport),
    ensures moved(old(placements)@, final(placements)@, children@, viewport),
//@ start
    let ghost before = placements@;
//@ loop 1
    invariant count == before.len(), placements@.len() == before.len(), forall|i: int| 0 <= i < before.len() ==> region_small((#[trigger] before[i]).region), offsets_ok(children@, viewport),
        forall|i: int| #![trigger placements@[i]] 0 <= i < ok ==> moved_one(before[i], placements@[i], children@, viewport),
        forall|i: int| #![trigger placements@[i]] ok <= i < before.len() ==> placements@[i] == before[i],
//@ loop_start 1
    proof { assert(region_small(before[ok as int].region)); assert(placements@[ok as int] == before[ok as int]); lemma_owner(before[ok as int], children@, 0);
        if owner(before[ok as int], children@, 0) is Some { let k = owner(before[ok as int], children@, 0)->0; let i = choose|i: int| 0 <= i < children@.len() && children@[i] == k; assert(offs_ok(children@[i], before[ok as int].region, viewport)); } }
//@ end

/// where an absolutely positioned child starts
pub open spec fn at_origin(c: LayoutChild, region: Region, v: Viewport) -> WidgetPlacement { WidgetPlacement { child_index: c.index, region: Region { x: region.x, y: region.y, width: absolute_size(c, region, v).0 as i32, height: absolute_size(c, region, v).1 as i32 } } }
pub open spec fn docked_part(d: Seq<WidgetPlacement>, c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool {
    d.len() == pick(c, 0).len() && forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> moved_one(WidgetPlacement { child_index: pick(c, 0)[i].index, region: docked_region(pick(c, 0)[i], a) }, d[i], c, v)
}
pub open spec fn flow_part(l: Seq<WidgetPlacement>, s: ComputedStyle, c: Seq<LayoutChild>, region: Region, v: Viewport) -> bool {
    exists|m: Seq<WidgetPlacement>| aligned(laid_out(s.layout, s, pick(c, 2), region, v), m, pick(c, 2), s, region) && #[trigger] moved(m, l, c, v)
}
pub open spec fn float_part(f: Seq<WidgetPlacement>, c: Seq<LayoutChild>, region: Region, v: Viewport) -> bool {
    f.len() == pick(c, 1).len() && forall|i: int| #![trigger f[i]] 0 <= i < f.len() ==> moved_one(at_origin(pick(c, 1)[i], region, v), f[i], c, v)
}
pub open spec fn arranged(r: Seq<WidgetPlacement>, s: ComputedStyle, c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool {
    let region = content(a, spacing_of(pick(c, 0)));
    exists|d: Seq<WidgetPlacement>, l: Seq<WidgetPlacement>, f: Seq<WidgetPlacement>| #![trigger d + l + f] r == d + l + f && docked_part(d, c, a, v) && flow_part(l, s, c, region, v) && float_part(f, c, region, v)
}
//@ extract crates/textual/src/layouts/mod.rs fn arrange_children_with_viewport
//@ ret r
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub let \((\w+), (\w+)\): \([^=;]*\) = (\w+)\s*\.(?:iter|into_iter)\(\)\s*\.partition\(\|child\| ([^;]*)\); ==> let mut \1: Vec<LayoutChild> = Vec::new(); let mut \2: Vec<LayoutChild> = Vec::new(); for pk in 0..\3.len() { let child = \3[pk]; if \4 { \1.push(child); } else { \2.push(child); } }
//@ sub let (\w+): Vec<\w+> = (\w+)\s*\.iter\(\)\s*\.map\(\|child\| LayoutChild \{([^}]*)\}\)\s*\.collect\(\); ==> let mut \1: Vec<LayoutChild> = Vec::new(); for ck in 0..\2.len() { let child = &\2[ck]; \1.push(LayoutChild {\3}); }
//@ sub child\.style\.clone\(\) ==> child.style
//@ sub let mut (\w+): Vec<WidgetPlacement> = (\w+)\s*\.iter\(\)\s*\.map\(\|child\| resolve_absolute_placement\(([^;]*)\)\)\s*\.collect\(\); ==> let mut \1: Vec<WidgetPlacement> = Vec::new(); for ck in 0..\2.len() { let child = &\2[ck]; \1.push(resolve_absolute_placement(\3)); }
//@ sub? available\s*\.(\w+)\s*\.saturating_sub\(([^)]*)\)\s*\.max\(0\) ==> imax(available.\1 - (\2), 0)
//@ sub placements\.extend\((\w+)\); ==> placements.append(&mut \1);
//@ nloops 6
//@ contract
    requires region_ok(available), offsets_ok(children@, viewport), margins_ok(children@), absolute_ok(children@, viewport),
    ensures arranged(r@, *parent_style, children@, available, viewport),
//@ loop 1
    invariant docked@ == pick(children@.take(pk as int), 0), non_docked@ == pick(children@.take(pk as int), 3),
//@ loop_start 1
    proof { assert(children@.take(pk + 1).drop_last() =~= children@.take(pk as int)); }
//@ after_loop 1
    proof { assert(children@.take(children@.len() as int) =~= children@); lemma_pick(children@, 3); lemma_pick(children@, 0); lemma_pick_twice(children@, 1); lemma_pick_twice(children@, 2); }
//@ loop 2
    invariant absolute_children@ == pick(non_docked@.take(pk as int), 1), layout_children@ == pick(non_docked@.take(pk as int), 2), forall|i: int| 0 <= i < non_docked@.len() ==> kind(#[trigger] non_docked@[i], 3),
//@ loop_start 2
    proof { assert(non_docked@.take(pk + 1).drop_last() =~= non_docked@.take(pk as int)); assert(kind(non_docked@[pk as int], 3)); }
//@ after_loop 2
    proof { assert(non_docked@.take(non_docked@.len() as int) =~= non_docked@); assert(absolute_children@ == pick(children@, 1)); assert(layout_children@ == pick(children@, 2)); }
//@ loop 3
    invariant docked_vec@ =~= docked@.take(ck as int),
//@ after_loop 3
    proof { assert(docked_vec@ =~= docked@); }
//@ loop 4
    invariant layout_children_vec@ =~= layout_children@.take(ck as int),
//@ after_loop 4
    proof { assert(layout_children_vec@ =~= pick(children@, 2)); lemma_pick(children@, 2); assert(margins_ok(layout_children_vec@)) by { assert forall|i: int| 0 <= i < layout_children_vec@.len() implies style_small((#[trigger] layout_children_vec@[i]).style) by { let j = choose|j: int| 0 <= j < children@.len() && children@[j] == pick(children@, 2)[i]; assert(style_small(children@[j].style)); } } }
//@ loop 5
    invariant absolute_children_vec@ =~= absolute_children@.take(ck as int),
//@ after_loop 5
    proof { assert(absolute_children_vec@ =~= pick(children@, 1)); lemma_pick(children@, 1); assert(region_small(content_region)); assert forall|i: int| 0 <= i < absolute_children_vec@.len() implies abs_small(#[trigger] absolute_size(absolute_children_vec@[i], content_region, viewport)) by { let j = choose|j: int| 0 <= j < children@.len() && children@[j] == pick(children@, 1)[i]; assert(kind(pick(children@, 1)[i], 1)); assert(abs_small(absolute_size(children@[j], content_region, viewport))); } }
    let ghost d0 = placements@; let ghost cr = content_region;
    proof { assert(cr == content(available, spacing_of(pick(children@, 0)))); }
//@ loop 6
    invariant absolute_placements@.len() == ck, region_small(content_region), forall|i: int| 0 <= i < absolute_children_vec@.len() ==> abs_small(#[trigger] absolute_size(absolute_children_vec@[i], content_region, viewport)), forall|i: int| #![trigger absolute_placements@[i]] 0 <= i < ck ==> absolute_placements@[i] == at_origin(absolute_children_vec@[i], content_region, viewport) && region_small(absolute_placements@[i].region),
//@ after_loop 6
    let ghost f0 = absolute_placements@;
//@ end

// ---------------------------------------------------------------- layers
pub open spec fn layer_of(c: LayoutChild) -> Name { match c.style.layer { Some(n) => n, None => name_of("default"@) } }
pub open spec fn on_layer(c: Seq<LayoutChild>, n: Name) -> Seq<LayoutChild> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else if layer_of(c.last()) == n { on_layer(c.drop_last(), n).push(c.last()) } else { on_layer(c.drop_last(), n) }
}
/// the layers the parent does not list, as they first appear
pub open spec fn unlisted(c: Seq<LayoutChild>, order: Seq<Name>) -> Seq<Name> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { let u = unlisted(c.drop_last(), order); let n = layer_of(c.last()); if order.contains(n) || u.contains(n) { u } else { u.push(n) } }
}
/// the layers the parent lists, in its order, once each, leaving out those without children
pub open spec fn listed(c: Seq<LayoutChild>, order: Seq<Name>) -> Seq<Name> decreases order.len() {
    if order.len() == 0 { Seq::empty() } else { let u = listed(c, order.drop_last()); let n = order.last(); if on_layer(c, n).len() == 0 || u.contains(n) { u } else { u.push(n) } }
}
pub open spec fn layer_names(c: Seq<LayoutChild>, order: Seq<Name>) -> Seq<Name> { unlisted(c, order) + listed(c, order) }
pub open spec fn order_of(s: ComputedStyle) -> Seq<Name> { match s.layers { Some(l) => l@, None => seq![name_of("default"@)] } }
pub open spec fn group_at(g: (Name, Vec<LayoutChild>), c: Seq<LayoutChild>, n: Name) -> bool { g.0 == n && g.1@ == on_layer(c, n) }
pub open spec fn groups(g: Seq<(Name, Vec<LayoutChild>)>, c: Seq<LayoutChild>, names: Seq<Name>) -> bool { g.len() == names.len() && forall|i: int| #![trigger g[i]] 0 <= i < g.len() ==> group_at(g[i], c, names[i]) }
#[verifier::external_body] pub struct LayerMap { x: u8 }
impl View for LayerMap { type V = Map<Name, Seq<LayoutChild>>; uninterp spec fn view(&self) -> Map<Name, Seq<LayoutChild>>; }
pub open spec fn at(m: Map<Name, Seq<LayoutChild>>, n: Name) -> Seq<LayoutChild> { if m.dom().contains(n) { m[n] } else { Seq::empty() } }
impl LayerMap {
    #[verifier::external_body] fn new() -> (r: LayerMap) ensures r@ == Map::<Name, Seq<LayoutChild>>::empty() { unimplemented!() }
    #[verifier::external_body] fn push_at(&mut self, n: Name, c: &LayoutChild) ensures final(self)@ == old(self)@.insert(n, at(old(self)@, n).push(*c)) { unimplemented!() }
    #[verifier::external_body] fn remove(&mut self, n: &Name) -> (r: Option<Vec<LayoutChild>>)
        ensures final(self)@ == old(self)@.remove(*n), match r { Some(v) => old(self)@.dom().contains(*n) && v@ == old(self)@[*n], None => !old(self)@.dom().contains(*n) } { unimplemented!() }
}
pub open spec fn grouped(m: Map<Name, Seq<LayoutChild>>, c: Seq<LayoutChild>) -> bool { forall|n: Name| #![trigger m.dom().contains(n)] #![trigger on_layer(c, n)] (m.dom().contains(n) <==> on_layer(c, n).len() > 0) && at(m, n) == on_layer(c, n) }
/// what is left once the layers named have been taken out
pub open spec fn left(m: Map<Name, Seq<LayoutChild>>, c: Seq<LayoutChild>, taken: Seq<Name>) -> bool { forall|n: Name| #![trigger m.dom().contains(n)] (m.dom().contains(n) <==> on_layer(c, n).len() > 0 && !taken.contains(n)) && (m.dom().contains(n) ==> m[n] == on_layer(c, n)) }
proof fn lemma_unlisted(c: Seq<LayoutChild>, order: Seq<Name>)
    ensures forall|n: Name| unlisted(c, order).contains(n) ==> !order.contains(n), decreases c.len(),
{ if c.len() > 0 { lemma_unlisted(c.drop_last(), order); let u = unlisted(c.drop_last(), order); let x = layer_of(c.last());
    assert forall|n: Name| unlisted(c, order).contains(n) implies !order.contains(n) by { if !(order.contains(x) || u.contains(x)) { let i = choose|i: int| 0 <= i < u.push(x).len() && u.push(x)[i] == n; if i < u.len() { assert(u[i] == n); assert(u.contains(n)); } } } } }
proof fn lemma_on_layer(c: Seq<LayoutChild>, n: Name)
    ensures forall|i: int| #![trigger on_layer(c, n)[i]] 0 <= i < on_layer(c, n).len() ==> exists|j: int| 0 <= j < c.len() && c[j] == on_layer(c, n)[i], decreases c.len(),
{ if c.len() > 0 { lemma_on_layer(c.drop_last(), n); let p = on_layer(c.drop_last(), n);
    assert forall|i: int| #![trigger on_layer(c, n)[i]] 0 <= i < on_layer(c, n).len() implies exists|j: int| 0 <= j < c.len() && c[j] == on_layer(c, n)[i] by {
        if i < p.len() { assert(on_layer(c, n)[i] == p[i]); let j = choose|j: int| 0 <= j < c.drop_last().len() && c.drop_last()[j] == p[i]; assert(c[j] == p[i]); } else { assert(c[c.len() - 1] == on_layer(c, n)[i]); } } } }
proof fn lemma_has_layer(c: Seq<LayoutChild>, k: int)
    requires 0 <= k < c.len(), ensures on_layer(c, layer_of(c[k])).len() > 0, decreases c.len(),
{ if k < c.len() - 1 { lemma_has_layer(c.drop_last(), k); } }
proof fn lemma_push_contains<A>(s: Seq<A>, x: A)
    ensures forall|y: A| #![trigger s.push(x).contains(y)] s.push(x).contains(y) <==> (s.contains(y) || y == x),
{ assert forall|y: A| #![trigger s.push(x).contains(y)] s.push(x).contains(y) <==> (s.contains(y) || y == x) by {
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    if y == x { assert(s.push(x)[s.len() as int] == y); }
    if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } } } }
//@ extract crates/textual/src/layouts/mod.rs fn build_layers
//@ ret r
//@ sub SIG:<'a> ==>
//@ sub SIG:&'a \[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub SIG:&\[String\] ==> &Vec<Name>
//@ sub SIG:Vec<\(String, Vec<&'a LayoutChild>\)> ==> Vec<(Name, Vec<LayoutChild>)>
//@ sub use std::collections::HashMap; ==>
//@ sub let mut layer_map: HashMap<String, Vec<&LayoutChild>> = HashMap::new\(\); ==> let mut layer_map = LayerMap::new();
//@ sub child\s*\.style\s*\.layer\s*\.clone\(\)\s*\.unwrap_or_else\(\|\| (.*?)\); ==> (match child.style.layer { Some(n) => n, None => \1 });
//@ sub "default"\.to_string\(\) ==> named("default")
//@ sub layer_map\.entry\((\w+)\)\.or_default\(\)\.push\((\w+)\) ==> layer_map.push_at(\1, \2)
//@ sub for child in children \{ ==> for ck in 0..children.len() { let child = &children[ck];
//@ sub for name in layer_order \{ ==> for nk in 0..layer_order.len() { let name = &layer_order[nk];
//@ sub layer_order\.contains\((&?\w+)\) ==> contains(layer_order, \1)
//@ sub let mut result = Vec::new\(\); ==> let mut result: Vec<(Name, Vec<LayoutChild>)> = Vec::new();
//@ nloops 3
//@ contract
    ensures groups(r@, children@, layer_names(children@, layer_order@)),
//@ loop 1
    invariant grouped(layer_map@, children@.take(ck as int)),
//@ loop_start 1
    let ghost m0 = layer_map@; let ghost before = children@.take(ck as int); let ghost now = children@.take(ck + 1);
    proof { assert(now.drop_last() =~= before); assert(now.last() == children@[ck as int]); }
//@ loop_end 1
    proof { assert forall|n: Name| #![trigger layer_map@.dom().contains(n)] #![trigger on_layer(now, n)] (layer_map@.dom().contains(n) <==> on_layer(now, n).len() > 0) && at(layer_map@, n) == on_layer(now, n) by { assert((m0.dom().contains(n) <==> on_layer(before, n).len() > 0) && at(m0, n) == on_layer(before, n)); } }
//@ after_loop 1
    proof { assert(children@.take(children@.len() as int) =~= children@); }
//@ before_loop 2
    let ghost order = layer_order@; let ghost m1 = layer_map@;
    proof { assert(unlisted(children@.take(0), order) =~= Seq::<Name>::empty()); assert(left(m1, children@, Seq::empty())) by { assert forall|n: Name| #![trigger m1.dom().contains(n)] (m1.dom().contains(n) <==> on_layer(children@, n).len() > 0 && !Seq::<Name>::empty().contains(n)) && (m1.dom().contains(n) ==> m1[n] == on_layer(children@, n)) by { assert(at(m1, n) == on_layer(children@, n)); } } }
//@ loop 2
    invariant order == layer_order@, left(layer_map@, children@, unlisted(children@.take(ck as int), order)), groups(result@, children@, unlisted(children@.take(ck as int), order)),
//@ loop_start 2
    let ghost before = children@.take(ck as int); let ghost now = children@.take(ck + 1); let ghost m0 = layer_map@;
    proof { assert(now.drop_last() =~= before); assert(now.last() == children@[ck as int]); lemma_has_layer(children@, ck as int); lemma_push_contains(unlisted(before, order), layer_of(children@[ck as int])); assert(m0.dom().contains(layer_of(children@[ck as int])) <==> !unlisted(before, order).contains(layer_of(children@[ck as int]))); }
//@ before_loop 3
    proof { assert(children@.take(children@.len() as int) =~= children@); lemma_unlisted(children@, order); assert(listed(children@, order.take(0)) =~= Seq::<Name>::empty()); }
    let ghost un = unlisted(children@, order);
    proof { assert(un + listed(children@, order.take(0)) =~= un); }
//@ loop 3
    invariant order == layer_order@, un == unlisted(children@, order), forall|n: Name| un.contains(n) ==> !order.contains(n), left(layer_map@, children@, un + listed(children@, order.take(nk as int))), groups(result@, children@, un + listed(children@, order.take(nk as int))),
//@ loop_start 3
    let ghost before = order.take(nk as int); let ghost now = order.take(nk + 1); let ghost m0 = layer_map@; let ghost nm = order[nk as int];
    proof { assert(now.drop_last() =~= before); assert(now.last() == nm); assert(order.contains(nm)); let b = un + listed(children@, before);
        lemma_push_contains(b, nm); assert(b.push(nm) =~= un + listed(children@, before).push(nm));
        assert(b.contains(nm) <==> listed(children@, before).contains(nm)) by { if b.contains(nm) { let i = choose|i: int| 0 <= i < b.len() && b[i] == nm; if i < un.len() { assert(un[i] == nm); assert(un.contains(nm)); } else { assert(listed(children@, before)[i - un.len()] == nm); } } if listed(children@, before).contains(nm) { let i = choose|i: int| 0 <= i < listed(children@, before).len() && listed(children@, before)[i] == nm; assert(b[i + un.len()] == nm); } }
        assert(m0.dom().contains(nm) <==> on_layer(children@, nm).len() > 0 && !b.contains(nm)); }
//@ after_loop 3
    proof { assert(order.take(order.len() as int) =~= order); }
//@ end
fn viewport_of(a: Region) -> (r: Viewport) ensures r == (Viewport { width: a.width, height: a.height }) { Viewport { width: a.width, height: a.height } }

pub open spec fn arranged_configured(r: Seq<WidgetPlacement>, s: ComputedStyle, c: Seq<LayoutChild>, a: Region) -> bool {
    let region = content(a, spacing_of(pick(c, 0))); let v = Viewport { width: a.width, height: a.height };
    exists|d: Seq<WidgetPlacement>, l: Seq<WidgetPlacement>, m: Seq<WidgetPlacement>| #![trigger d + l, moved(m, l, c, v)] r == d + l && docked_part(d, c, a, v) && aligned(configured_out(s.layout, s, pick(c, 3), region, v), m, pick(c, 3), s, region) && moved(m, l, c, v)
}
//@ extract crates/textual/src/layouts/mod.rs fn arrange_children_with_pre_layout
//@ ret r
//@ sub SIG:<F> ==>
//@ sub SIG:pre_layout: F, ==>
//@ sub SIG:where\s*F: FnOnce\(&mut dyn Layout\), ==>
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub let viewport: Viewport = available\.into\(\); ==> let viewport = viewport_of(available);
//@ sub let \((\w+), (\w+)\): \([^=;]*\) = (\w+)\s*\.(?:iter|into_iter)\(\)\s*\.partition\(\|child\| ([^;]*)\); ==> let mut \1: Vec<LayoutChild> = Vec::new(); let mut \2: Vec<LayoutChild> = Vec::new(); for pk in 0..\3.len() { let child = \3[pk]; if \4 { \1.push(child); } else { \2.push(child); } }
//@ sub let (\w+): Vec<\w+> = (\w+)\s*\.iter\(\)\s*\.map\(\|child\| LayoutChild \{([^}]*)\}\)\s*\.collect\(\); ==> let mut \1: Vec<LayoutChild> = Vec::new(); for ck in 0..\2.len() { let child = &\2[ck]; \1.push(LayoutChild {\3}); }
//@ sub child\.style\.clone\(\) ==> child.style
//@ sub? available\s*\.(\w+)\s*\.saturating_sub\(([^)]*)\)\s*\.max\(0\) ==> imax(available.\1 - (\2), 0)
//@ sub pre_layout\(&mut layout\);\s*layout\.arrange\( ==> layout.arrange_configured(
//@ sub placements\.extend\((\w+)\); ==> placements.append(&mut \1);
//@ nloops 3
//@ contract
    requires region_ok(available), offsets_ok(children@, Viewport { width: available.width, height: available.height }), margins_ok(children@),
    ensures arranged_configured(r@, *parent_style, children@, available),
//@ loop 1
    invariant docked@ == pick(children@.take(pk as int), 0), layout_children@ == pick(children@.take(pk as int), 3),
//@ loop_start 1
    proof { assert(children@.take(pk + 1).drop_last() =~= children@.take(pk as int)); }
//@ after_loop 1
    proof { assert(children@.take(children@.len() as int) =~= children@); lemma_pick(children@, 3); lemma_pick(children@, 0); }
//@ loop 2
    invariant docked_vec@ =~= docked@.take(ck as int),
//@ after_loop 2
    proof { assert(docked_vec@ =~= docked@); }
//@ loop 3
    invariant layout_children_vec@ =~= layout_children@.take(ck as int),
//@ after_loop 3
    proof { assert(layout_children_vec@ =~= pick(children@, 3)); assert(margins_ok(layout_children_vec@)) by { assert forall|i: int| 0 <= i < layout_children_vec@.len() implies style_small((#[trigger] layout_children_vec@[i]).style) by { let j = choose|j: int| 0 <= j < children@.len() && children@[j] == pick(children@, 3)[i]; assert(style_small(children@[j].style)); } } }
    proof { assert(content_region == content(available, spacing_of(pick(children@, 0)))); }
//@ end

/// one piece per layer, bottom first, each arranged on its own in the whole region
pub open spec fn joined(p: Seq<Seq<WidgetPlacement>>) -> Seq<WidgetPlacement> decreases p.len() { if p.len() == 0 { Seq::empty() } else { joined(p.drop_last()) + p.last() } }
pub open spec fn piece_ok(p: Seq<WidgetPlacement>, s: ComputedStyle, c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool { if c.len() == 0 { p.len() == 0 } else { arranged(p, s, c, a, v) } }
pub open spec fn pieces_ok(p: Seq<Seq<WidgetPlacement>>, s: ComputedStyle, c: Seq<LayoutChild>, names: Seq<Name>, a: Region, v: Viewport) -> bool { p.len() == names.len() && forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> piece_ok(p[i], s, on_layer(c, names[i]), a, v) }
pub open spec fn uses_layers(s: ComputedStyle, c: Seq<LayoutChild>) -> bool { s.layers is Some || exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).style.layer is Some }
pub open spec fn layered(r: Seq<WidgetPlacement>, s: ComputedStyle, c: Seq<LayoutChild>, a: Region, v: Viewport) -> bool {
    if uses_layers(s, c) { exists|p: Seq<Seq<WidgetPlacement>>| r == #[trigger] joined(p) && pieces_ok(p, s, c, layer_names(c, order_of(s)), a, v) } else { arranged(r, s, c, a, v) }
}
//@ extract crates/textual/src/layouts/mod.rs fn arrange_children_with_layers
//@ ret r
//@ sub SIG:&\[LayoutChild\] ==> &Vec<LayoutChild>
//@ sub children\.iter\(\)\.any\(\|child\| ([^;]*)\); ==> { let mut any_ = false; for ak in 0..children.len() { let child = &children[ak]; if \1 { any_ = true; } } any_ };
//@ sub let layer_order: Vec<String> = parent_style\s*\.layers\s*\.clone\(\)\s*\.unwrap_or_else\(\|\| vec!\[(.*?)\]\); ==> let layer_order: Vec<Name> = match parent_style.layers { Some(l) => l.list(), None => only(\1) };
//@ sub "default"\.to_string\(\) ==> named("default")
//@ sub for \(_layer_name, layer_children\) in layers \{ ==> for lk in 0..layers.len() { let layer_children = &layers[lk].1;
//@ sub layer_children\.is_empty\(\) ==> (layer_children.len() == 0)
//@ sub let (\w+): Vec<\w+> = (\w+)\s*\.iter\(\)\s*\.map\(\|child\| LayoutChild \{([^}]*)\}\)\s*\.collect\(\); ==> let mut \1: Vec<LayoutChild> = Vec::new(); for ck in 0..\2.len() { let child = &\2[ck]; \1.push(LayoutChild {\3}); }
//@ sub child\.style\.clone\(\) ==> child.style
//@ sub let mut all_placements = Vec::new\(\); ==> let mut all_placements: Vec<WidgetPlacement> = Vec::new();
//@ sub let layer_placements = ==> let mut layer_placements =
//@ sub all_placements\.extend\((\w+)\); ==> let ghost lp = \1@; all_placements.append(&mut \1); proof { assert(all_placements@.subrange(joined0.len() as int, all_placements@.len() as int) =~= lp); assert(arranged(lp, *parent_style, mine, available, viewport)); }
//@ nloops 3
//@ contract
    requires region_ok(available), offsets_ok(children@, viewport), margins_ok(children@), absolute_ok(children@, viewport),
    ensures layered(r@, *parent_style, children@, available, viewport),
//@ loop 1
    invariant any_ <==> exists|i: int| 0 <= i < ak && (#[trigger] children@[i]).style.layer is Some,
//@ before_loop 2
    let ghost names = layer_names(children@, order_of(*parent_style)); let ghost mut pieces: Seq<Seq<WidgetPlacement>> = Seq::empty();
    proof { assert(uses_layers(*parent_style, children@)); assert(layer_order@ == order_of(*parent_style)); }
//@ loop 2
    invariant names == layer_names(children@, order_of(*parent_style)), groups(layers@, children@, names), region_ok(available), offsets_ok(children@, viewport), margins_ok(children@), absolute_ok(children@, viewport),
        pieces.len() == lk, all_placements@ == joined(pieces), forall|i: int| #![trigger pieces[i]] 0 <= i < lk ==> piece_ok(pieces[i], *parent_style, on_layer(children@, names[i]), available, viewport),
//@ loop_start 2
    let ghost joined0 = all_placements@; let ghost pieces0 = pieces; let ghost mine = on_layer(children@, names[lk as int]);
    proof { assert(group_at(layers@[lk as int], children@, names[lk as int])); lemma_on_layer(children@, names[lk as int]);
        assert(margins_ok(mine)) by { assert forall|i: int| 0 <= i < mine.len() implies style_small((#[trigger] mine[i]).style) by { let j = choose|j: int| 0 <= j < children@.len() && children@[j] == mine[i]; assert(style_small(children@[j].style)); } }
        assert(absolute_ok(mine, viewport)) by { assert forall|i: int, r: Region| 0 <= i < mine.len() && region_small(r) && mine[i].style.position == Position::Absolute implies abs_small(#[trigger] absolute_size(mine[i], r, viewport)) by { let j = choose|j: int| 0 <= j < children@.len() && children@[j] == mine[i]; assert(abs_small(absolute_size(children@[j], r, viewport))); } }
        assert(offsets_ok(mine, viewport)) by { assert forall|i: int, r: Region| 0 <= i < mine.len() && region_small(r) implies #[trigger] offs_ok(mine[i], r, viewport) by { let j = choose|j: int| 0 <= j < children@.len() && children@[j] == mine[i]; assert(offs_ok(children@[j], r, viewport)); } } }
//@ loop 3
    invariant children_vec@ =~= layer_children@.take(ck as int),
//@ after_loop 3
    proof { assert(children_vec@ =~= mine); }
//@ loop_end 2
    proof { let piece = all_placements@.subrange(joined0.len() as int, all_placements@.len() as int); pieces = pieces0.push(piece); assert(pieces.drop_last() =~= pieces0); assert(all_placements@ =~= joined0 + piece); assert(piece_ok(piece, *parent_style, mine, available, viewport)); }
//@ end
}
