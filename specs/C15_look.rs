use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- colours
#[verifier::external_body] pub struct RgbaColor { x: u8 }
#[verifier::external_body] pub struct Color { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Alpha { x: u8 }
pub uninterp spec fn seen_on(c: RgbaColor, on: RgbaColor) -> RgbaColor;
pub uninterp spec fn readable_on(on: RgbaColor, a: Alpha) -> RgbaColor;
pub uninterp spec fn usual() -> Alpha;
pub uninterp spec fn opaque(r: u8, g: u8, b: u8) -> RgbaColor;
impl Color { pub uninterp spec fn rgb(self) -> (u8, u8, u8); #[verifier::external_body] fn to_rgb(&self) -> (r: (u8, u8, u8)) ensures r == self.rgb() { unimplemented!() } }
impl RgbaColor {
    pub uninterp spec fn alpha(self) -> Alpha;
    pub uninterp spec fn see_through(self) -> bool;
    pub uninterp spec fn auto(self) -> bool;
    #[verifier::external_body] fn is_see_through(&self) -> (r: bool) ensures r == self.see_through() { unimplemented!() }
    #[verifier::external_body] fn is_auto(&self) -> (r: bool) ensures r == self.auto() { unimplemented!() }
    #[verifier::external_body] fn its_alpha(&self) -> (r: Alpha) ensures r == self.alpha() { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn rgb(r: u8, g: u8, b: u8) -> (c: Self) ensures c == opaque(r, g, b) { unimplemented!() }
    /// C14
    #[verifier::external_body] fn blend_over(&self, on: &RgbaColor) -> (r: Self) ensures r == seen_on(*self, *on) { unimplemented!() }
    #[verifier::external_body] fn get_contrasting_color(&self, a: Alpha) -> (r: Self) ensures r == readable_on(*self, a) { unimplemented!() }
}
#[verifier::external_body] fn usual_alpha() -> (r: Alpha) ensures r == usual() { unimplemented!() }
fn copy(o: &Option<RgbaColor>) -> (r: Option<RgbaColor>) ensures r == *o { match o { Some(c) => Some(c.clone()), None => None } }
fn either<'a>(a: Option<&'a RgbaColor>, b: Option<&'a RgbaColor>) -> (r: Option<&'a RgbaColor>) ensures r == (if a is Some { a } else { b }) { match a { Some(c) => Some(c), None => b } }

// ---------------------------------------------------------------- styles
pub
//@ extract crates/textual/src/segment.rs struct Style
//@ end
pub open spec fn plain() -> Style { Style { fg: None, bg: None, bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } }
impl Style { fn default() -> (r: Self) ensures r == plain() { Style { fg: None, bg: None, bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false } } }
pub
//@ extract crates/tcss/src/types/text.rs struct TextStyle
//@ sub Option<String> ==> Option<NoText>
//@ end
pub struct NoText { pub x: u8 }
pub
//@ extract crates/tcss/src/types/link.rs struct LinkStyle
//@ end
pub struct RichText { pub bold: bool, pub italic: bool, pub underline: bool, pub strike: bool, pub dim: bool, pub reverse: bool, pub blink: bool }
pub struct RichStyle { pub fg: Option<Color>, pub bg: Option<Color>, pub text: RichText }
pub open spec fn solid(c: Option<Color>) -> Option<RgbaColor> { match c { Some(c) => Some(opaque(c.rgb().0, c.rgb().1, c.rgb().2)), None => None } }
/// the style of a piece of text as the markup gives it
pub open spec fn converted(s: RichStyle) -> Style {
    Style { fg: solid(s.fg), bg: solid(s.bg), bold: s.text.bold, dim: s.text.dim, italic: s.text.italic, underline: s.text.underline, strike: s.text.strike, reverse: s.text.reverse }
}

// ---------------------------------------------------------------- links
pub open spec fn upper<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
pub open spec fn link_ground(s: Style, l: LinkStyle, hovered: bool) -> Option<RgbaColor> {
    let c = if hovered { upper(l.background_hover, l.background) } else { l.background };
    match c { Some(x) => if x.see_through() && s.bg is Some { Some(seen_on(x, s.bg->Some_0)) } else { Some(x) }, None => s.bg }
}
/// the style of a link on the style of the text it is in: its colours where it has any (see-through ones laid over the ground,
/// automatic ones readable on it), every attribute of either, and underlined unless the mouse is on it and neither says so
pub open spec fn linked(s: Style, l: LinkStyle, hovered: bool) -> Style {
    let ground = link_ground(s, l, hovered);
    let c = if hovered { upper(l.color_hover, l.color) } else { l.color };
    Style {
        fg: match c {
            Some(x) => if x.auto() { if ground is Some { Some(readable_on(ground->Some_0, x.alpha())) } else { s.fg } }
                else if x.see_through() && ground is Some { Some(seen_on(x, ground->Some_0)) } else { Some(x) },
            None => if ground is Some { Some(readable_on(ground->Some_0, usual())) } else { s.fg },
        },
        bg: ground,
        bold: s.bold || l.style.bold || (hovered && l.style_hover.bold),
        dim: s.dim || l.style.dim || (hovered && l.style_hover.dim),
        italic: s.italic || l.style.italic || (hovered && l.style_hover.italic),
        underline: !hovered || l.style.underline || l.style_hover.underline,
        strike: s.strike || l.style.strike || (hovered && l.style_hover.strike),
        reverse: s.reverse || l.style.reverse || (hovered && l.style_hover.reverse),
    }
}
pub struct Content { pub x: u8 }
impl Content {
//@ extract crates/textual/src/content.rs fn Content::convert_rich_style
//@ ret r
//@ sub SIG:rich::Style ==> RichStyle
//@ contract
    ensures r == converted(*rich_style),
//@ end
//@ extract crates/textual/src/content.rs fn Content::apply_link_style
//@ ret r
//@ sub (link_style)\s*\.(\w+_hover)\s*\.as_ref\(\)\s*\.or\(link_style\.(\w+)\.as_ref\(\)\) ==> either(\1.\2.as_ref(), link_style.\3.as_ref())
//@ sub tcss::types::TextStyle ==> TextStyle
//@ sub match \(link_bg, &base_style\.bg\) \{(\s*)\(Some\(link_bg\), Some\(base_bg\)\) if link_bg\.a < 1\.0 => ==> match (link_bg, &base_style.bg) {\1(Some(link_bg), Some(base_bg)) if link_bg.is_see_through() =>
//@ sub base\.clone\(\) ==> copy(base)
//@ sub color\.auto\b ==> color.is_auto()
//@ sub color\.a < 1\.0 ==> color.is_see_through()
//@ sub color\.a\b ==> color.its_alpha()
//@ sub get_contrasting_color\(0\.87\) ==> get_contrasting_color(usual_alpha())
//@ contract
    ensures r == linked(base_style, *link_style, is_hovered),
//@ end
}
}
