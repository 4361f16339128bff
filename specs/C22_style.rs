use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- the code's types
/// a colour of any kind: literal, named, of a theme, transparent, automatic
#[verifier::external_body] pub struct RgbaColor { x: u8 }
#[verifier::external_body] pub struct Color { x: u8 }
#[verifier::external_body] pub struct Text { x: u8 }
#[verifier::external_body] pub struct Meta { x: u8 }
pub trait Copyable: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl Copyable for RgbaColor { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for Color { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for Meta { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
fn copy<T: Copyable>(o: &Option<T>) -> (r: Option<T>) ensures r == *o { match o { Some(c) => Some(c.clone()), None => None } }
fn or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == over(b, a) { match a { Some(c) => Some(c), None => b } }
/// what a later choice leaves of an earlier one
pub open spec fn over<T>(lower: Option<T>, upper: Option<T>) -> Option<T> { match upper { Some(c) => Some(c), None => lower } }

// ---------------------------------------------------------------- styles of segments
pub
//@ extract crates/textual/src/segment.rs struct Style
//@ end
pub open spec fn empty() -> Style { Style { fg: None, bg: None, bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } }
/// the upper style on top of the lower one
pub open spec fn layered(lower: Style, upper: Style) -> Style {
    Style { fg: over(lower.fg, upper.fg), bg: over(lower.bg, upper.bg), bold: lower.bold || upper.bold, dim: lower.dim || upper.dim, italic: lower.italic || upper.italic,
        underline: lower.underline || upper.underline, strike: lower.strike || upper.strike, reverse: lower.reverse || upper.reverse }
}
#[verifier::external_body] fn no_style() -> (r: Style) ensures r == empty() { Style { fg: None, bg: None, bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } }
impl Copyable for Style {
    fn clone(&self) -> (r: Self) { Style { fg: copy(&self.fg), bg: copy(&self.bg), bold: self.bold, dim: self.dim, italic: self.italic, underline: self.underline, strike: self.strike, reverse: self.reverse } }
}
impl Style {
//@ extract crates/textual/src/segment.rs fn Style::with_fg
//@ ret r
//@ sub \.\.Default::default\(\) ==> ..no_style()
//@ contract
    ensures r == (Style { fg: Some(fg), ..empty() }),
//@ end
//@ extract crates/textual/src/segment.rs fn Style::with_bg
//@ ret r
//@ sub \.\.Default::default\(\) ==> ..no_style()
//@ contract
    ensures r == (Style { bg: Some(bg), ..empty() }),
//@ end
//@ extract crates/textual/src/segment.rs fn Style::with_colors
//@ ret r
//@ sub \.\.Default::default\(\) ==> ..no_style()
//@ contract
    ensures r == (Style { fg: Some(fg), bg: Some(bg), ..empty() }),
//@ end
//@ extract crates/textual/src/segment.rs fn Style::is_empty
//@ ret r
//@ contract
    ensures r == (*self == empty()),
//@ end
//@ extract crates/textual/src/segment.rs fn Style::apply
//@ ret r
//@ sub? (\w+\.[fb]g)\.clone\(\) ==> copy(&\1)
//@ sub? (copy\(&\w+\.\w+\))\.or_else\(\|\| (copy\(&\w+\.\w+\))\) ==> or(\1, \2)
//@ contract
    ensures r == layered(*self, *other),
//@ end
}
proof fn theorem_segment_styles(a: Style, b: Style, c: Style)
    ensures
        layered(a, empty()) == a, layered(empty(), a) == a,
        layered(layered(a, b), c) == layered(a, layered(b, c)),
        b.fg is Some ==> layered(a, b).fg == b.fg, b.fg is None ==> layered(a, b).fg == a.fg,
        b.bg is Some ==> layered(a, b).bg == b.bg, b.bg is None ==> layered(a, b).bg == a.bg,
{}

// ---------------------------------------------------------------- ... of markup
pub struct RichStyle { pub fg: Option<Color>, pub bg: Option<Color>, pub text: TextStyle }
pub
//@ extract crates/rich/src/style.rs struct TextStyle
//@ end
pub open spec fn rich_empty() -> RichStyle { RichStyle { fg: None, bg: None, text: no_text() } }
pub open spec fn no_text() -> TextStyle { TextStyle { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false, blink: false } }
pub open spec fn both(a: TextStyle, b: TextStyle) -> TextStyle {
    TextStyle { bold: a.bold || b.bold, dim: a.dim || b.dim, italic: a.italic || b.italic, underline: a.underline || b.underline, strike: a.strike || b.strike, reverse: a.reverse || b.reverse, blink: a.blink || b.blink }
}
pub open spec fn rich_layered(lower: RichStyle, upper: RichStyle) -> RichStyle { RichStyle { fg: over(lower.fg, upper.fg), bg: over(lower.bg, upper.bg), text: both(lower.text, upper.text) } }
impl TextStyle {
//@ extract crates/rich/src/style.rs fn TextStyle::is_empty
//@ ret r
//@ contract
    ensures r == (*self == no_text()),
//@ end
//@ extract crates/rich/src/style.rs fn TextStyle::apply
//@ ret r
//@ contract
    ensures r == both(*self, *other),
//@ end
}
impl RichStyle {
//@ extract crates/rich/src/style.rs fn Style::is_empty
//@ ret r
//@ contract
    ensures r == (*self == rich_empty()),
//@ end
//@ extract crates/rich/src/style.rs fn Style::apply
//@ ret r
//@ sub SIG:\bStyle\b ==> RichStyle
//@ sub? \bStyle \{ ==> RichStyle {
//@ sub? (\w+\.[fb]g)\.clone\(\) ==> copy(&\1)
//@ sub? (copy\(&\w+\.\w+\))\.or_else\(\|\| (copy\(&\w+\.\w+\))\) ==> or(\1, \2)
//@ contract
    ensures r == rich_layered(*self, *other),
//@ end
}
proof fn theorem_markup_styles(a: RichStyle, b: RichStyle, c: RichStyle)
    ensures
        rich_layered(a, rich_empty()) == a, rich_layered(rich_empty(), a) == a,
        rich_layered(rich_layered(a, b), c) == rich_layered(a, rich_layered(b, c)),
{}

// ---------------------------------------------------------------- applied to text
pub struct Segment { pub text: Text, pub cell_length: usize, pub style: Option<Style>, pub meta: Meta }
pub open spec fn style(o: Option<Style>) -> Style { match o { Some(s) => s, None => empty() } }
/// r is s with u on top
pub open spec fn restyled(r: Segment, s: Segment, u: Style) -> bool { r.text == s.text && r.cell_length == s.cell_length && r.meta == s.meta && style(r.style) == layered(style(s.style), u) }
impl Segment {
//@ extract crates/textual/src/segment.rs fn Segment::apply_style
//@ ret r
//@ contract
    ensures restyled(r, *self, *style),
//@ end
//@ extract crates/textual/src/segment.rs fn Segment::set_style
//@ ret r
//@ contract
    ensures r == (Segment { style: style, ..*self }),
//@ end
}
pub struct Strip { pub segments: Vec<Segment>, pub cell_length: usize }
pub open spec fn restyle(r: Seq<Segment>, v: Seq<Segment>, u: Style) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> restyled(#[trigger] r[i], v[i], u) }
impl Strip {
    /// see C04
    #[verifier::external_body] fn from_segments(v: Vec<Segment>) -> (r: Strip) ensures r.segments@ == v@ { unimplemented!() }
//@ extract crates/textual/src/strip.rs fn Strip::apply_style
//@ ret r
//@ sub self\.segments\.iter\(\)\.map\(\|s\| s\.apply_style\((\w+)\)\)\.collect\(\) ==> each(&self.segments, \1)
//@ sub Vec<_> ==> Vec<Segment>
//@ contract
    ensures restyle(r.segments@, self.segments@, *style),
//@ end
}
/// iter().map(|s| s.apply_style(u)).collect()
fn each(v: &Vec<Segment>, u: &Style) -> (r: Vec<Segment>) ensures restyle(r@, v@, *u)
{
    let mut r: Vec<Segment> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> restyled(#[trigger] r@[k], v@[k], *u), decreases v@.len() - i,
    { r.push(v[i].apply_style(u)); i = i + 1; }
    r
}
/// styles can be put on text in any grouping
proof fn theorem_grouping(v: Seq<Segment>, a: Style, b: Style, one: Seq<Segment>, two: Seq<Segment>, once: Seq<Segment>)
    requires restyle(one, v, a), restyle(two, one, b), restyle(once, v, layered(a, b)),
    ensures two.len() == once.len(), forall|i: int| 0 <= i < two.len() ==> (#[trigger] two[i]).text == once[i].text && two[i].meta == once[i].meta && style(two[i].style) == style(once[i].style),
{
    assert forall|i: int| 0 <= i < two.len() implies (#[trigger] two[i]).text == once[i].text && two[i].meta == once[i].meta && style(two[i].style) == style(once[i].style) by {
        assert(restyled(one[i], v[i], a) && restyled(two[i], one[i], b) && restyled(once[i], v[i], layered(a, b)));
        theorem_segment_styles(style(v[i].style), a, b);
    }
}
}
