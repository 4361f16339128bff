use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- the code's types (leaf values are opaque)
#[verifier::external_body] pub struct Theme { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ScrollbarGutter { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ScrollbarVisibility { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Display { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Visibility { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Overflow { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Layout { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Position { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Dock { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TextAlign { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TextOverflow { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TextWrap { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct AlignHorizontal { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct AlignVertical { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct BoxSizing { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Scalar { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct BorderKind { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct HatchPattern { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct KeylineStyle { x: u8 }
#[verifier::external_body] pub struct Name { x: u8 }
pub struct RgbaColor { pub auto: bool, pub rest: Name }
pub struct TextStyle { pub rest: Name }
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/geometry.rs struct Spacing
//@ end
pub
//@ extract crates/tcss/src/types/border.rs struct BorderEdge
//@ end
pub
//@ extract crates/tcss/src/types/border.rs struct Border
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/scrollbar.rs struct ScrollbarSize
//@ end
pub
//@ extract crates/tcss/src/types/scrollbar.rs struct ScrollbarStyle
//@ end
pub
//@ extract crates/tcss/src/types/grid.rs struct GridStyle
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/types/grid.rs struct GridPlacement
//@ end
pub
//@ extract crates/tcss/src/types/link.rs struct LinkStyle
//@ end
pub
//@ extract crates/tcss/src/types/hatch.rs struct Hatch
//@ end
pub
//@ extract crates/tcss/src/types/keyline.rs struct Keyline
//@ end
pub
//@ extract crates/tcss/src/types/mod.rs struct ComputedStyle
//@ sub String ==> Name
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs enum Declaration
//@ sub String ==> Name
//@ end
impl Name { #[verifier::external_body] fn clone(&self) -> (r: Name) ensures r == *self { unimplemented!() } }
impl RgbaColor { #[verifier::external_body] fn clone(&self) -> (r: RgbaColor) ensures r == *self { unimplemented!() } }
impl TextStyle { #[verifier::external_body] fn clone(&self) -> (r: TextStyle) ensures r == *self { unimplemented!() } }
impl BorderEdge { #[verifier::external_body] fn clone(&self) -> (r: BorderEdge) ensures r == *self { unimplemented!() } }
impl Hatch { #[verifier::external_body] fn clone(&self) -> (r: Hatch) ensures r == *self { unimplemented!() } }
impl Keyline { #[verifier::external_body] fn clone(&self) -> (r: Keyline) ensures r == *self { unimplemented!() } }
#[verifier::external_body] fn copy_names(x: &Vec<Name>) -> (r: Vec<Name>) ensures r == *x { unimplemented!() }
#[verifier::external_body] fn copy_sizes(x: &Vec<Scalar>) -> (r: Vec<Scalar>) ensures r == *x { unimplemented!() }
// ---------------------------------------------------------------- the property
/// what a colour, an edge or a text style means under a theme (searched)
pub uninterp spec fn theme_color(c: RgbaColor, t: Theme) -> RgbaColor;
pub uninterp spec fn theme_style(s: TextStyle, t: Theme) -> TextStyle;
pub open spec fn theme_edge(e: BorderEdge, t: Theme) -> BorderEdge { BorderEdge { color: match e.color { Some(c) => Some(theme_color(c, t)), None => None }, ..e } }
/// text styles add up
pub uninterp spec fn merged(a: TextStyle, b: TextStyle) -> TextStyle;
#[verifier::external_body] fn resolve_theme_color(c: &RgbaColor, t: &Theme) -> (r: RgbaColor) ensures r == theme_color(*c, *t) { unimplemented!() }
#[verifier::external_body] fn resolve_theme_style(c: &TextStyle, t: &Theme) -> (r: TextStyle) ensures r == theme_style(*c, *t) { unimplemented!() }
impl TextStyle { #[verifier::external_body] fn merge(&mut self, o: &TextStyle) ensures *final(self) == merged(*old(self), *o) { unimplemented!() } }
/// every property a stylesheet can set, one by one (a shorthand names several of them)
pub enum Prop { Background, Tint, BackgroundTint, Width, Height, MaxHeight, MaxWidth, MinHeight, MinWidth, BoxSizing, Display, Opacity, Layout, Position, Dock, Layers, Layer, TextAlign, TextOverflow, TextWrap, LinePad, TextOpacity, OffsetX, OffsetY, OverflowX, OverflowY, ContentAlignHorizontal, ContentAlignVertical, AlignHorizontal, AlignVertical, BorderTitleAlign, BorderSubtitleAlign, BorderTitleColor, BorderSubtitleColor, BorderTitleBackground, BorderSubtitleBackground, Hatch, Keyline, InheritedBackground, TextStyle, BorderTitleStyle, BorderSubtitleStyle, Color, Visibility, MarginTop, MarginRight, MarginBottom, MarginLeft, PaddingTop, PaddingRight, PaddingBottom, PaddingLeft, BorderTop, BorderRight, BorderBottom, BorderLeft, OutlineTop, OutlineRight, OutlineBottom, OutlineLeft, ScrollbarColor, ScrollbarColorHover, ScrollbarColorActive, ScrollbarBackground, ScrollbarBackgroundHover, ScrollbarBackgroundActive, ScrollbarCornerColor, ScrollbarSizeHorizontal, ScrollbarSizeVertical, ScrollbarGutter, ScrollbarVisibility, GridColumnCount, GridRowCount, GridColumns, GridRows, GridGutter, ColumnSpan, RowSpan, LinkColor, LinkColorHover, LinkBackground, LinkBackgroundHover, LinkStyle, LinkStyleHover }
/// the two styles agree on the property
pub open spec fn same_at(a: ComputedStyle, b: ComputedStyle, p: Prop) -> bool {
    match p {
        Prop::Background => a.background == b.background,
        Prop::Tint => a.tint == b.tint,
        Prop::BackgroundTint => a.background_tint == b.background_tint,
        Prop::Width => a.width == b.width,
        Prop::Height => a.height == b.height,
        Prop::MaxHeight => a.max_height == b.max_height,
        Prop::MaxWidth => a.max_width == b.max_width,
        Prop::MinHeight => a.min_height == b.min_height,
        Prop::MinWidth => a.min_width == b.min_width,
        Prop::BoxSizing => a.box_sizing == b.box_sizing,
        Prop::Display => a.display == b.display,
        Prop::Opacity => a.opacity == b.opacity,
        Prop::Layout => a.layout == b.layout,
        Prop::Position => a.position == b.position,
        Prop::Dock => a.dock == b.dock,
        Prop::Layers => a.layers == b.layers,
        Prop::Layer => a.layer == b.layer,
        Prop::TextAlign => a.text_align == b.text_align,
        Prop::TextOverflow => a.text_overflow == b.text_overflow,
        Prop::TextWrap => a.text_wrap == b.text_wrap,
        Prop::LinePad => a.line_pad == b.line_pad,
        Prop::TextOpacity => a.text_opacity == b.text_opacity,
        Prop::OffsetX => a.offset_x == b.offset_x,
        Prop::OffsetY => a.offset_y == b.offset_y,
        Prop::OverflowX => a.overflow_x == b.overflow_x,
        Prop::OverflowY => a.overflow_y == b.overflow_y,
        Prop::ContentAlignHorizontal => a.content_align_horizontal == b.content_align_horizontal,
        Prop::ContentAlignVertical => a.content_align_vertical == b.content_align_vertical,
        Prop::AlignHorizontal => a.align_horizontal == b.align_horizontal,
        Prop::AlignVertical => a.align_vertical == b.align_vertical,
        Prop::BorderTitleAlign => a.border_title_align == b.border_title_align,
        Prop::BorderSubtitleAlign => a.border_subtitle_align == b.border_subtitle_align,
        Prop::BorderTitleColor => a.border_title_color == b.border_title_color,
        Prop::BorderSubtitleColor => a.border_subtitle_color == b.border_subtitle_color,
        Prop::BorderTitleBackground => a.border_title_background == b.border_title_background,
        Prop::BorderSubtitleBackground => a.border_subtitle_background == b.border_subtitle_background,
        Prop::Hatch => a.hatch == b.hatch,
        Prop::Keyline => a.keyline == b.keyline,
        Prop::InheritedBackground => a.inherited_background == b.inherited_background,
        Prop::TextStyle => a.text_style == b.text_style,
        Prop::BorderTitleStyle => a.border_title_style == b.border_title_style,
        Prop::BorderSubtitleStyle => a.border_subtitle_style == b.border_subtitle_style,
        Prop::Color => a.color == b.color && a.auto_color == b.auto_color,
        Prop::Visibility => a.visibility == b.visibility && a.visibility_set == b.visibility_set,
        Prop::MarginTop => a.margin.top == b.margin.top,
        Prop::MarginRight => a.margin.right == b.margin.right,
        Prop::MarginBottom => a.margin.bottom == b.margin.bottom,
        Prop::MarginLeft => a.margin.left == b.margin.left,
        Prop::PaddingTop => a.padding.top == b.padding.top,
        Prop::PaddingRight => a.padding.right == b.padding.right,
        Prop::PaddingBottom => a.padding.bottom == b.padding.bottom,
        Prop::PaddingLeft => a.padding.left == b.padding.left,
        Prop::BorderTop => a.border.top == b.border.top,
        Prop::BorderRight => a.border.right == b.border.right,
        Prop::BorderBottom => a.border.bottom == b.border.bottom,
        Prop::BorderLeft => a.border.left == b.border.left,
        Prop::OutlineTop => a.outline.top == b.outline.top,
        Prop::OutlineRight => a.outline.right == b.outline.right,
        Prop::OutlineBottom => a.outline.bottom == b.outline.bottom,
        Prop::OutlineLeft => a.outline.left == b.outline.left,
        Prop::ScrollbarColor => a.scrollbar.color == b.scrollbar.color,
        Prop::ScrollbarColorHover => a.scrollbar.color_hover == b.scrollbar.color_hover,
        Prop::ScrollbarColorActive => a.scrollbar.color_active == b.scrollbar.color_active,
        Prop::ScrollbarBackground => a.scrollbar.background == b.scrollbar.background,
        Prop::ScrollbarBackgroundHover => a.scrollbar.background_hover == b.scrollbar.background_hover,
        Prop::ScrollbarBackgroundActive => a.scrollbar.background_active == b.scrollbar.background_active,
        Prop::ScrollbarCornerColor => a.scrollbar.corner_color == b.scrollbar.corner_color,
        Prop::ScrollbarSizeHorizontal => a.scrollbar.size.horizontal == b.scrollbar.size.horizontal,
        Prop::ScrollbarSizeVertical => a.scrollbar.size.vertical == b.scrollbar.size.vertical,
        Prop::ScrollbarGutter => a.scrollbar.gutter == b.scrollbar.gutter,
        Prop::ScrollbarVisibility => a.scrollbar.visibility == b.scrollbar.visibility,
        Prop::GridColumnCount => a.grid.columns == b.grid.columns,
        Prop::GridRowCount => a.grid.rows == b.grid.rows,
        Prop::GridColumns => a.grid.column_widths == b.grid.column_widths,
        Prop::GridRows => a.grid.row_heights == b.grid.row_heights,
        Prop::GridGutter => a.grid.gutter == b.grid.gutter,
        Prop::ColumnSpan => a.grid_placement.column_span == b.grid_placement.column_span,
        Prop::RowSpan => a.grid_placement.row_span == b.grid_placement.row_span,
        Prop::LinkColor => a.link.color == b.link.color,
        Prop::LinkColorHover => a.link.color_hover == b.link.color_hover,
        Prop::LinkBackground => a.link.background == b.link.background,
        Prop::LinkBackgroundHover => a.link.background_hover == b.link.background_hover,
        Prop::LinkStyle => a.link.style == b.link.style,
        Prop::LinkStyleHover => a.link.style_hover == b.link.style_hover,
    }
}
/// the declaration names the property
pub open spec fn names(d: Declaration, p: Prop) -> bool {
    match d {
        Declaration::Width(_) => p is Width,
        Declaration::Height(_) => p is Height,
        Declaration::MaxHeight(_) => p is MaxHeight,
        Declaration::MaxWidth(_) => p is MaxWidth,
        Declaration::MinHeight(_) => p is MinHeight,
        Declaration::MinWidth(_) => p is MinWidth,
        Declaration::Dock(_) => p is Dock,
        Declaration::Layers(_) => p is Layers,
        Declaration::Layer(_) => p is Layer,
        Declaration::OffsetX(_) => p is OffsetX,
        Declaration::OffsetY(_) => p is OffsetY,
        Declaration::Background(_) => p is Background,
        Declaration::Tint(_) => p is Tint,
        Declaration::BackgroundTint(_) => p is BackgroundTint,
        Declaration::BorderTitleColor(_) => p is BorderTitleColor,
        Declaration::BorderSubtitleColor(_) => p is BorderSubtitleColor,
        Declaration::BorderTitleBackground(_) => p is BorderTitleBackground,
        Declaration::BorderSubtitleBackground(_) => p is BorderSubtitleBackground,
        Declaration::ScrollbarColor(_) => p is ScrollbarColor,
        Declaration::ScrollbarColorHover(_) => p is ScrollbarColorHover,
        Declaration::ScrollbarColorActive(_) => p is ScrollbarColorActive,
        Declaration::ScrollbarBackground(_) => p is ScrollbarBackground,
        Declaration::ScrollbarBackgroundHover(_) => p is ScrollbarBackgroundHover,
        Declaration::ScrollbarBackgroundActive(_) => p is ScrollbarBackgroundActive,
        Declaration::ScrollbarCornerColor(_) => p is ScrollbarCornerColor,
        Declaration::LinkColor(_) => p is LinkColor,
        Declaration::LinkColorHover(_) => p is LinkColorHover,
        Declaration::LinkBackground(_) => p is LinkBackground,
        Declaration::LinkBackgroundHover(_) => p is LinkBackgroundHover,
        Declaration::BoxSizing(_) => p is BoxSizing,
        Declaration::Display(_) => p is Display,
        Declaration::Opacity(_) => p is Opacity,
        Declaration::Layout(_) => p is Layout,
        Declaration::Position(_) => p is Position,
        Declaration::TextAlign(_) => p is TextAlign,
        Declaration::TextOverflow(_) => p is TextOverflow,
        Declaration::TextWrap(_) => p is TextWrap,
        Declaration::LinePad(_) => p is LinePad,
        Declaration::TextOpacity(_) => p is TextOpacity,
        Declaration::OverflowX(_) => p is OverflowX,
        Declaration::OverflowY(_) => p is OverflowY,
        Declaration::ContentAlignHorizontal(_) => p is ContentAlignHorizontal,
        Declaration::ContentAlignVertical(_) => p is ContentAlignVertical,
        Declaration::AlignHorizontal(_) => p is AlignHorizontal,
        Declaration::AlignVertical(_) => p is AlignVertical,
        Declaration::BorderTitleAlign(_) => p is BorderTitleAlign,
        Declaration::BorderSubtitleAlign(_) => p is BorderSubtitleAlign,
        Declaration::MarginTop(_) => p is MarginTop,
        Declaration::MarginRight(_) => p is MarginRight,
        Declaration::MarginBottom(_) => p is MarginBottom,
        Declaration::MarginLeft(_) => p is MarginLeft,
        Declaration::PaddingTop(_) => p is PaddingTop,
        Declaration::PaddingRight(_) => p is PaddingRight,
        Declaration::PaddingBottom(_) => p is PaddingBottom,
        Declaration::PaddingLeft(_) => p is PaddingLeft,
        Declaration::ScrollbarSizeHorizontal(_) => p is ScrollbarSizeHorizontal,
        Declaration::ScrollbarSizeVertical(_) => p is ScrollbarSizeVertical,
        Declaration::ScrollbarGutter(_) => p is ScrollbarGutter,
        Declaration::ScrollbarVisibility(_) => p is ScrollbarVisibility,
        Declaration::ColumnSpan(_) => p is ColumnSpan,
        Declaration::RowSpan(_) => p is RowSpan,
        Declaration::Color(_) => p is Color,
        Declaration::Visibility(_) => p is Visibility,
        Declaration::Margin(_) => p is MarginTop || p is MarginRight || p is MarginBottom || p is MarginLeft,
        Declaration::Padding(_) => p is PaddingTop || p is PaddingRight || p is PaddingBottom || p is PaddingLeft,
        Declaration::Border(_) => p is BorderTop || p is BorderRight || p is BorderBottom || p is BorderLeft,
        Declaration::BorderTop(_) => p is BorderTop,
        Declaration::BorderRight(_) => p is BorderRight,
        Declaration::BorderBottom(_) => p is BorderBottom,
        Declaration::BorderLeft(_) => p is BorderLeft,
        Declaration::Outline(_) => p is OutlineTop || p is OutlineRight || p is OutlineBottom || p is OutlineLeft,
        Declaration::OutlineTop(_) => p is OutlineTop,
        Declaration::OutlineRight(_) => p is OutlineRight,
        Declaration::OutlineBottom(_) => p is OutlineBottom,
        Declaration::OutlineLeft(_) => p is OutlineLeft,
        Declaration::ScrollbarSize(_) => p is ScrollbarSizeHorizontal || p is ScrollbarSizeVertical,
        Declaration::Overflow(_, _) => p is OverflowX || p is OverflowY,
        Declaration::ContentAlign(_, _) => p is ContentAlignHorizontal || p is ContentAlignVertical,
        Declaration::Align(_, _) => p is AlignHorizontal || p is AlignVertical,
        Declaration::Offset(_, _) => p is OffsetX || p is OffsetY,
        Declaration::GridSize(_, _) => p is GridColumnCount || p is GridRowCount,
        Declaration::GridColumns(_) => p is GridColumns,
        Declaration::GridRows(_) => p is GridRows,
        Declaration::GridGutter(_, _) => p is GridGutter,
        Declaration::LinkStyle(_) => p is LinkStyle,
        Declaration::LinkStyleHover(_) => p is LinkStyleHover,
        Declaration::TextStyle(_) => p is TextStyle,
        Declaration::BorderTitleStyle(_) => p is BorderTitleStyle,
        Declaration::BorderSubtitleStyle(_) => p is BorderSubtitleStyle,
        Declaration::Hatch(_) => p is Hatch,
        Declaration::Keyline(_) => p is Keyline,
        Declaration::Unknown(_) => false,
    }
}
/// the style has the declared value for the properties the declaration names (`s`: the style before, for the additive ones)
pub open spec fn declared(r: ComputedStyle, s: ComputedStyle, d: Declaration, t: Theme) -> bool {
    match d {
        Declaration::Width(x) => r.width == Some(x),
        Declaration::Height(x) => r.height == Some(x),
        Declaration::MaxHeight(x) => r.max_height == Some(x),
        Declaration::MaxWidth(x) => r.max_width == Some(x),
        Declaration::MinHeight(x) => r.min_height == Some(x),
        Declaration::MinWidth(x) => r.min_width == Some(x),
        Declaration::Dock(x) => r.dock == Some(x),
        Declaration::Layers(x) => r.layers == Some(x),
        Declaration::Layer(x) => r.layer == Some(x),
        Declaration::OffsetX(x) => r.offset_x == Some(x),
        Declaration::OffsetY(x) => r.offset_y == Some(x),
        Declaration::Background(x) => r.background == (Some(theme_color(x, t))),
        Declaration::Tint(x) => r.tint == (Some(theme_color(x, t))),
        Declaration::BackgroundTint(x) => r.background_tint == (Some(theme_color(x, t))),
        Declaration::BorderTitleColor(x) => r.border_title_color == (Some(theme_color(x, t))),
        Declaration::BorderSubtitleColor(x) => r.border_subtitle_color == (Some(theme_color(x, t))),
        Declaration::BorderTitleBackground(x) => r.border_title_background == (Some(theme_color(x, t))),
        Declaration::BorderSubtitleBackground(x) => r.border_subtitle_background == (Some(theme_color(x, t))),
        Declaration::ScrollbarColor(x) => r.scrollbar.color == (Some(theme_color(x, t))),
        Declaration::ScrollbarColorHover(x) => r.scrollbar.color_hover == (Some(theme_color(x, t))),
        Declaration::ScrollbarColorActive(x) => r.scrollbar.color_active == (Some(theme_color(x, t))),
        Declaration::ScrollbarBackground(x) => r.scrollbar.background == (Some(theme_color(x, t))),
        Declaration::ScrollbarBackgroundHover(x) => r.scrollbar.background_hover == (Some(theme_color(x, t))),
        Declaration::ScrollbarBackgroundActive(x) => r.scrollbar.background_active == (Some(theme_color(x, t))),
        Declaration::ScrollbarCornerColor(x) => r.scrollbar.corner_color == (Some(theme_color(x, t))),
        Declaration::LinkColor(x) => r.link.color == (Some(theme_color(x, t))),
        Declaration::LinkColorHover(x) => r.link.color_hover == (Some(theme_color(x, t))),
        Declaration::LinkBackground(x) => r.link.background == (Some(theme_color(x, t))),
        Declaration::LinkBackgroundHover(x) => r.link.background_hover == (Some(theme_color(x, t))),
        Declaration::BoxSizing(x) => r.box_sizing == x,
        Declaration::Display(x) => r.display == x,
        Declaration::Opacity(x) => r.opacity == x,
        Declaration::Layout(x) => r.layout == x,
        Declaration::Position(x) => r.position == x,
        Declaration::TextAlign(x) => r.text_align == x,
        Declaration::TextOverflow(x) => r.text_overflow == x,
        Declaration::TextWrap(x) => r.text_wrap == x,
        Declaration::LinePad(x) => r.line_pad == x,
        Declaration::TextOpacity(x) => r.text_opacity == x,
        Declaration::OverflowX(x) => r.overflow_x == x,
        Declaration::OverflowY(x) => r.overflow_y == x,
        Declaration::ContentAlignHorizontal(x) => r.content_align_horizontal == x,
        Declaration::ContentAlignVertical(x) => r.content_align_vertical == x,
        Declaration::AlignHorizontal(x) => r.align_horizontal == x,
        Declaration::AlignVertical(x) => r.align_vertical == x,
        Declaration::BorderTitleAlign(x) => r.border_title_align == x,
        Declaration::BorderSubtitleAlign(x) => r.border_subtitle_align == x,
        Declaration::MarginTop(x) => r.margin.top == x,
        Declaration::MarginRight(x) => r.margin.right == x,
        Declaration::MarginBottom(x) => r.margin.bottom == x,
        Declaration::MarginLeft(x) => r.margin.left == x,
        Declaration::PaddingTop(x) => r.padding.top == x,
        Declaration::PaddingRight(x) => r.padding.right == x,
        Declaration::PaddingBottom(x) => r.padding.bottom == x,
        Declaration::PaddingLeft(x) => r.padding.left == x,
        Declaration::ScrollbarSizeHorizontal(x) => r.scrollbar.size.horizontal == x,
        Declaration::ScrollbarSizeVertical(x) => r.scrollbar.size.vertical == x,
        Declaration::ScrollbarGutter(x) => r.scrollbar.gutter == x,
        Declaration::ScrollbarVisibility(x) => r.scrollbar.visibility == x,
        Declaration::ColumnSpan(x) => r.grid_placement.column_span == x,
        Declaration::RowSpan(x) => r.grid_placement.row_span == x,
        Declaration::Color(x) => r.color == (Some(theme_color(x, t))) && r.auto_color == (x.auto || theme_color(x, t).auto),
        Declaration::Visibility(x) => r.visibility == x && r.visibility_set == true,
        Declaration::Margin(x) => r.margin.top == x.top && r.margin.right == x.right && r.margin.bottom == x.bottom && r.margin.left == x.left,
        Declaration::Padding(x) => r.padding.top == x.top && r.padding.right == x.right && r.padding.bottom == x.bottom && r.padding.left == x.left,
        Declaration::Border(x) => r.border.top == (theme_edge(x, t)) && r.border.right == (theme_edge(x, t)) && r.border.bottom == (theme_edge(x, t)) && r.border.left == (theme_edge(x, t)),
        Declaration::BorderTop(x) => r.border.top == (theme_edge(x, t)),
        Declaration::BorderRight(x) => r.border.right == (theme_edge(x, t)),
        Declaration::BorderBottom(x) => r.border.bottom == (theme_edge(x, t)),
        Declaration::BorderLeft(x) => r.border.left == (theme_edge(x, t)),
        Declaration::Outline(x) => r.outline.top == (theme_edge(x, t)) && r.outline.right == (theme_edge(x, t)) && r.outline.bottom == (theme_edge(x, t)) && r.outline.left == (theme_edge(x, t)),
        Declaration::OutlineTop(x) => r.outline.top == (theme_edge(x, t)),
        Declaration::OutlineRight(x) => r.outline.right == (theme_edge(x, t)),
        Declaration::OutlineBottom(x) => r.outline.bottom == (theme_edge(x, t)),
        Declaration::OutlineLeft(x) => r.outline.left == (theme_edge(x, t)),
        Declaration::ScrollbarSize(x) => r.scrollbar.size.horizontal == x.horizontal && r.scrollbar.size.vertical == x.vertical,
        Declaration::Overflow(x, y) => r.overflow_x == x && r.overflow_y == y,
        Declaration::ContentAlign(x, y) => r.content_align_horizontal == x && r.content_align_vertical == y,
        Declaration::Align(x, y) => r.align_horizontal == x && r.align_vertical == y,
        Declaration::Offset(x, y) => r.offset_x == Some(x) && r.offset_y == Some(y),
        Declaration::GridSize(x, y) => r.grid.columns == Some(x) && r.grid.rows == y,
        Declaration::GridColumns(x) => r.grid.column_widths == x,
        Declaration::GridRows(x) => r.grid.row_heights == x,
        Declaration::GridGutter(x, y) => r.grid.gutter == ((x, match y { Some(h) => h, None => x })),
        Declaration::LinkStyle(x) => r.link.style == (theme_style(x, t)),
        Declaration::LinkStyleHover(x) => r.link.style_hover == (theme_style(x, t)),
        Declaration::TextStyle(x) => r.text_style == (merged(s.text_style, theme_style(x, t))),
        Declaration::BorderTitleStyle(x) => r.border_title_style == (merged(s.border_title_style, x)),
        Declaration::BorderSubtitleStyle(x) => r.border_subtitle_style == (merged(s.border_subtitle_style, x)),
        Declaration::Hatch(x) => r.hatch == (Some(Hatch { color: theme_color(x.color, t), ..x })),
        Declaration::Keyline(x) => r.keyline == (Keyline { color: theme_color(x.color, t), ..x }),
        Declaration::Unknown(_) => true,
    }
}
pub open spec fn additive(p: Prop) -> bool { p is TextStyle || p is BorderTitleStyle || p is BorderSubtitleStyle }
/// what one declaration does: the properties it names get the declared value, all others keep theirs
pub open spec fn applies(s: ComputedStyle, d: Declaration, t: Theme, r: ComputedStyle) -> bool {
    declared(r, s, d, t) && forall|p: Prop| !names(d, p) ==> #[trigger] same_at(r, s, p)
}
/// what a declaration does is determined
pub open spec fn applied(s: ComputedStyle, d: Declaration, t: Theme) -> ComputedStyle { choose|r: ComputedStyle| applies(s, d, t, r) }
proof fn lemma_applied(s: ComputedStyle, d: Declaration, t: Theme, r: ComputedStyle)
    requires applies(s, d, t, r)
    ensures r == applied(s, d, t)
{
    let q = applied(s, d, t);
    assert(applies(s, d, t, q));
    assert forall|p: Prop| #[trigger] same_at(r, q, p) by {
        if !names(d, p) { assert(same_at(r, s, p)); assert(same_at(q, s, p)); }
    }
    lemma_all_props(r, q);
}
/// the style with the declared values put in
pub open spec fn made(s: ComputedStyle, d: Declaration, t: Theme) -> ComputedStyle {
    match d {
        Declaration::Width(x) => ComputedStyle { width: Some(x), ..s },
        Declaration::Height(x) => ComputedStyle { height: Some(x), ..s },
        Declaration::MaxHeight(x) => ComputedStyle { max_height: Some(x), ..s },
        Declaration::MaxWidth(x) => ComputedStyle { max_width: Some(x), ..s },
        Declaration::MinHeight(x) => ComputedStyle { min_height: Some(x), ..s },
        Declaration::MinWidth(x) => ComputedStyle { min_width: Some(x), ..s },
        Declaration::Dock(x) => ComputedStyle { dock: Some(x), ..s },
        Declaration::Layers(x) => ComputedStyle { layers: Some(x), ..s },
        Declaration::Layer(x) => ComputedStyle { layer: Some(x), ..s },
        Declaration::OffsetX(x) => ComputedStyle { offset_x: Some(x), ..s },
        Declaration::OffsetY(x) => ComputedStyle { offset_y: Some(x), ..s },
        Declaration::Background(x) => ComputedStyle { background: Some(theme_color(x, t)), ..s },
        Declaration::Tint(x) => ComputedStyle { tint: Some(theme_color(x, t)), ..s },
        Declaration::BackgroundTint(x) => ComputedStyle { background_tint: Some(theme_color(x, t)), ..s },
        Declaration::BorderTitleColor(x) => ComputedStyle { border_title_color: Some(theme_color(x, t)), ..s },
        Declaration::BorderSubtitleColor(x) => ComputedStyle { border_subtitle_color: Some(theme_color(x, t)), ..s },
        Declaration::BorderTitleBackground(x) => ComputedStyle { border_title_background: Some(theme_color(x, t)), ..s },
        Declaration::BorderSubtitleBackground(x) => ComputedStyle { border_subtitle_background: Some(theme_color(x, t)), ..s },
        Declaration::ScrollbarColor(x) => ComputedStyle { scrollbar: ScrollbarStyle { color: Some(theme_color(x, t)), ..s.scrollbar }, ..s },
        Declaration::ScrollbarColorHover(x) => ComputedStyle { scrollbar: ScrollbarStyle { color_hover: Some(theme_color(x, t)), ..s.scrollbar }, ..s },
        Declaration::ScrollbarColorActive(x) => ComputedStyle { scrollbar: ScrollbarStyle { color_active: Some(theme_color(x, t)), ..s.scrollbar }, ..s },
        Declaration::ScrollbarBackground(x) => ComputedStyle { scrollbar: ScrollbarStyle { background: Some(theme_color(x, t)), ..s.scrollbar }, ..s },
        Declaration::ScrollbarBackgroundHover(x) => ComputedStyle { scrollbar: ScrollbarStyle { background_hover: Some(theme_color(x, t)), ..s.scrollbar }, ..s },
        Declaration::ScrollbarBackgroundActive(x) => ComputedStyle { scrollbar: ScrollbarStyle { background_active: Some(theme_color(x, t)), ..s.scrollbar }, ..s },
        Declaration::ScrollbarCornerColor(x) => ComputedStyle { scrollbar: ScrollbarStyle { corner_color: Some(theme_color(x, t)), ..s.scrollbar }, ..s },
        Declaration::LinkColor(x) => ComputedStyle { link: LinkStyle { color: Some(theme_color(x, t)), ..s.link }, ..s },
        Declaration::LinkColorHover(x) => ComputedStyle { link: LinkStyle { color_hover: Some(theme_color(x, t)), ..s.link }, ..s },
        Declaration::LinkBackground(x) => ComputedStyle { link: LinkStyle { background: Some(theme_color(x, t)), ..s.link }, ..s },
        Declaration::LinkBackgroundHover(x) => ComputedStyle { link: LinkStyle { background_hover: Some(theme_color(x, t)), ..s.link }, ..s },
        Declaration::BoxSizing(x) => ComputedStyle { box_sizing: x, ..s },
        Declaration::Display(x) => ComputedStyle { display: x, ..s },
        Declaration::Opacity(x) => ComputedStyle { opacity: x, ..s },
        Declaration::Layout(x) => ComputedStyle { layout: x, ..s },
        Declaration::Position(x) => ComputedStyle { position: x, ..s },
        Declaration::TextAlign(x) => ComputedStyle { text_align: x, ..s },
        Declaration::TextOverflow(x) => ComputedStyle { text_overflow: x, ..s },
        Declaration::TextWrap(x) => ComputedStyle { text_wrap: x, ..s },
        Declaration::LinePad(x) => ComputedStyle { line_pad: x, ..s },
        Declaration::TextOpacity(x) => ComputedStyle { text_opacity: x, ..s },
        Declaration::OverflowX(x) => ComputedStyle { overflow_x: x, ..s },
        Declaration::OverflowY(x) => ComputedStyle { overflow_y: x, ..s },
        Declaration::ContentAlignHorizontal(x) => ComputedStyle { content_align_horizontal: x, ..s },
        Declaration::ContentAlignVertical(x) => ComputedStyle { content_align_vertical: x, ..s },
        Declaration::AlignHorizontal(x) => ComputedStyle { align_horizontal: x, ..s },
        Declaration::AlignVertical(x) => ComputedStyle { align_vertical: x, ..s },
        Declaration::BorderTitleAlign(x) => ComputedStyle { border_title_align: x, ..s },
        Declaration::BorderSubtitleAlign(x) => ComputedStyle { border_subtitle_align: x, ..s },
        Declaration::MarginTop(x) => ComputedStyle { margin: Spacing { top: x, ..s.margin }, ..s },
        Declaration::MarginRight(x) => ComputedStyle { margin: Spacing { right: x, ..s.margin }, ..s },
        Declaration::MarginBottom(x) => ComputedStyle { margin: Spacing { bottom: x, ..s.margin }, ..s },
        Declaration::MarginLeft(x) => ComputedStyle { margin: Spacing { left: x, ..s.margin }, ..s },
        Declaration::PaddingTop(x) => ComputedStyle { padding: Spacing { top: x, ..s.padding }, ..s },
        Declaration::PaddingRight(x) => ComputedStyle { padding: Spacing { right: x, ..s.padding }, ..s },
        Declaration::PaddingBottom(x) => ComputedStyle { padding: Spacing { bottom: x, ..s.padding }, ..s },
        Declaration::PaddingLeft(x) => ComputedStyle { padding: Spacing { left: x, ..s.padding }, ..s },
        Declaration::ScrollbarSizeHorizontal(x) => ComputedStyle { scrollbar: ScrollbarStyle { size: ScrollbarSize { horizontal: x, ..s.scrollbar.size }, ..s.scrollbar }, ..s },
        Declaration::ScrollbarSizeVertical(x) => ComputedStyle { scrollbar: ScrollbarStyle { size: ScrollbarSize { vertical: x, ..s.scrollbar.size }, ..s.scrollbar }, ..s },
        Declaration::ScrollbarGutter(x) => ComputedStyle { scrollbar: ScrollbarStyle { gutter: x, ..s.scrollbar }, ..s },
        Declaration::ScrollbarVisibility(x) => ComputedStyle { scrollbar: ScrollbarStyle { visibility: x, ..s.scrollbar }, ..s },
        Declaration::ColumnSpan(x) => ComputedStyle { grid_placement: GridPlacement { column_span: x, ..s.grid_placement }, ..s },
        Declaration::RowSpan(x) => ComputedStyle { grid_placement: GridPlacement { row_span: x, ..s.grid_placement }, ..s },
        Declaration::Color(x) => ComputedStyle { color: Some(theme_color(x, t)), auto_color: x.auto || theme_color(x, t).auto, ..s },
        Declaration::Visibility(x) => ComputedStyle { visibility: x, visibility_set: true, ..s },
        Declaration::Margin(x) => ComputedStyle { margin: Spacing { top: x.top, right: x.right, bottom: x.bottom, left: x.left, ..s.margin }, ..s },
        Declaration::Padding(x) => ComputedStyle { padding: Spacing { top: x.top, right: x.right, bottom: x.bottom, left: x.left, ..s.padding }, ..s },
        Declaration::Border(x) => ComputedStyle { border: Border { top: theme_edge(x, t), right: theme_edge(x, t), bottom: theme_edge(x, t), left: theme_edge(x, t), ..s.border }, ..s },
        Declaration::BorderTop(x) => ComputedStyle { border: Border { top: theme_edge(x, t), ..s.border }, ..s },
        Declaration::BorderRight(x) => ComputedStyle { border: Border { right: theme_edge(x, t), ..s.border }, ..s },
        Declaration::BorderBottom(x) => ComputedStyle { border: Border { bottom: theme_edge(x, t), ..s.border }, ..s },
        Declaration::BorderLeft(x) => ComputedStyle { border: Border { left: theme_edge(x, t), ..s.border }, ..s },
        Declaration::Outline(x) => ComputedStyle { outline: Border { top: theme_edge(x, t), right: theme_edge(x, t), bottom: theme_edge(x, t), left: theme_edge(x, t), ..s.outline }, ..s },
        Declaration::OutlineTop(x) => ComputedStyle { outline: Border { top: theme_edge(x, t), ..s.outline }, ..s },
        Declaration::OutlineRight(x) => ComputedStyle { outline: Border { right: theme_edge(x, t), ..s.outline }, ..s },
        Declaration::OutlineBottom(x) => ComputedStyle { outline: Border { bottom: theme_edge(x, t), ..s.outline }, ..s },
        Declaration::OutlineLeft(x) => ComputedStyle { outline: Border { left: theme_edge(x, t), ..s.outline }, ..s },
        Declaration::ScrollbarSize(x) => ComputedStyle { scrollbar: ScrollbarStyle { size: ScrollbarSize { horizontal: x.horizontal, vertical: x.vertical, ..s.scrollbar.size }, ..s.scrollbar }, ..s },
        Declaration::Overflow(x, y) => ComputedStyle { overflow_x: x, overflow_y: y, ..s },
        Declaration::ContentAlign(x, y) => ComputedStyle { content_align_horizontal: x, content_align_vertical: y, ..s },
        Declaration::Align(x, y) => ComputedStyle { align_horizontal: x, align_vertical: y, ..s },
        Declaration::Offset(x, y) => ComputedStyle { offset_x: Some(x), offset_y: Some(y), ..s },
        Declaration::GridSize(x, y) => ComputedStyle { grid: GridStyle { columns: Some(x), rows: y, ..s.grid }, ..s },
        Declaration::GridColumns(x) => ComputedStyle { grid: GridStyle { column_widths: x, ..s.grid }, ..s },
        Declaration::GridRows(x) => ComputedStyle { grid: GridStyle { row_heights: x, ..s.grid }, ..s },
        Declaration::GridGutter(x, y) => ComputedStyle { grid: GridStyle { gutter: (x, match y { Some(h) => h, None => x }), ..s.grid }, ..s },
        Declaration::LinkStyle(x) => ComputedStyle { link: LinkStyle { style: theme_style(x, t), ..s.link }, ..s },
        Declaration::LinkStyleHover(x) => ComputedStyle { link: LinkStyle { style_hover: theme_style(x, t), ..s.link }, ..s },
        Declaration::TextStyle(x) => ComputedStyle { text_style: merged(s.text_style, theme_style(x, t)), ..s },
        Declaration::BorderTitleStyle(x) => ComputedStyle { border_title_style: merged(s.border_title_style, x), ..s },
        Declaration::BorderSubtitleStyle(x) => ComputedStyle { border_subtitle_style: merged(s.border_subtitle_style, x), ..s },
        Declaration::Hatch(x) => ComputedStyle { hatch: Some(Hatch { color: theme_color(x.color, t), ..x }), ..s },
        Declaration::Keyline(x) => ComputedStyle { keyline: Keyline { color: theme_color(x.color, t), ..x }, ..s },
        Declaration::Unknown(_) => s,
    }
}
/// every declaration can be carried out
proof fn lemma_total(s: ComputedStyle, d: Declaration, t: Theme)
    ensures applies(s, d, t, applied(s, d, t))
{ assert(applies(s, d, t, made(s, d, t))); }
/// the properties are all there is to a style
proof fn lemma_all_props(a: ComputedStyle, b: ComputedStyle)
    requires forall|p: Prop| #[trigger] same_at(a, b, p)
    ensures a == b
{
    assert(same_at(a, b, Prop::Background));
    assert(same_at(a, b, Prop::Tint));
    assert(same_at(a, b, Prop::BackgroundTint));
    assert(same_at(a, b, Prop::Width));
    assert(same_at(a, b, Prop::Height));
    assert(same_at(a, b, Prop::MaxHeight));
    assert(same_at(a, b, Prop::MaxWidth));
    assert(same_at(a, b, Prop::MinHeight));
    assert(same_at(a, b, Prop::MinWidth));
    assert(same_at(a, b, Prop::BoxSizing));
    assert(same_at(a, b, Prop::Display));
    assert(same_at(a, b, Prop::Opacity));
    assert(same_at(a, b, Prop::Layout));
    assert(same_at(a, b, Prop::Position));
    assert(same_at(a, b, Prop::Dock));
    assert(same_at(a, b, Prop::Layers));
    assert(same_at(a, b, Prop::Layer));
    assert(same_at(a, b, Prop::TextAlign));
    assert(same_at(a, b, Prop::TextOverflow));
    assert(same_at(a, b, Prop::TextWrap));
    assert(same_at(a, b, Prop::LinePad));
    assert(same_at(a, b, Prop::TextOpacity));
    assert(same_at(a, b, Prop::OffsetX));
    assert(same_at(a, b, Prop::OffsetY));
    assert(same_at(a, b, Prop::OverflowX));
    assert(same_at(a, b, Prop::OverflowY));
    assert(same_at(a, b, Prop::ContentAlignHorizontal));
    assert(same_at(a, b, Prop::ContentAlignVertical));
    assert(same_at(a, b, Prop::AlignHorizontal));
    assert(same_at(a, b, Prop::AlignVertical));
    assert(same_at(a, b, Prop::BorderTitleAlign));
    assert(same_at(a, b, Prop::BorderSubtitleAlign));
    assert(same_at(a, b, Prop::BorderTitleColor));
    assert(same_at(a, b, Prop::BorderSubtitleColor));
    assert(same_at(a, b, Prop::BorderTitleBackground));
    assert(same_at(a, b, Prop::BorderSubtitleBackground));
    assert(same_at(a, b, Prop::Hatch));
    assert(same_at(a, b, Prop::Keyline));
    assert(same_at(a, b, Prop::InheritedBackground));
    assert(same_at(a, b, Prop::TextStyle));
    assert(same_at(a, b, Prop::BorderTitleStyle));
    assert(same_at(a, b, Prop::BorderSubtitleStyle));
    assert(same_at(a, b, Prop::Color));
    assert(same_at(a, b, Prop::Visibility));
    assert(same_at(a, b, Prop::MarginTop));
    assert(same_at(a, b, Prop::MarginRight));
    assert(same_at(a, b, Prop::MarginBottom));
    assert(same_at(a, b, Prop::MarginLeft));
    assert(same_at(a, b, Prop::PaddingTop));
    assert(same_at(a, b, Prop::PaddingRight));
    assert(same_at(a, b, Prop::PaddingBottom));
    assert(same_at(a, b, Prop::PaddingLeft));
    assert(same_at(a, b, Prop::BorderTop));
    assert(same_at(a, b, Prop::BorderRight));
    assert(same_at(a, b, Prop::BorderBottom));
    assert(same_at(a, b, Prop::BorderLeft));
    assert(same_at(a, b, Prop::OutlineTop));
    assert(same_at(a, b, Prop::OutlineRight));
    assert(same_at(a, b, Prop::OutlineBottom));
    assert(same_at(a, b, Prop::OutlineLeft));
    assert(same_at(a, b, Prop::ScrollbarColor));
    assert(same_at(a, b, Prop::ScrollbarColorHover));
    assert(same_at(a, b, Prop::ScrollbarColorActive));
    assert(same_at(a, b, Prop::ScrollbarBackground));
    assert(same_at(a, b, Prop::ScrollbarBackgroundHover));
    assert(same_at(a, b, Prop::ScrollbarBackgroundActive));
    assert(same_at(a, b, Prop::ScrollbarCornerColor));
    assert(same_at(a, b, Prop::ScrollbarSizeHorizontal));
    assert(same_at(a, b, Prop::ScrollbarSizeVertical));
    assert(same_at(a, b, Prop::ScrollbarGutter));
    assert(same_at(a, b, Prop::ScrollbarVisibility));
    assert(same_at(a, b, Prop::GridColumnCount));
    assert(same_at(a, b, Prop::GridRowCount));
    assert(same_at(a, b, Prop::GridColumns));
    assert(same_at(a, b, Prop::GridRows));
    assert(same_at(a, b, Prop::GridGutter));
    assert(same_at(a, b, Prop::ColumnSpan));
    assert(same_at(a, b, Prop::RowSpan));
    assert(same_at(a, b, Prop::LinkColor));
    assert(same_at(a, b, Prop::LinkColorHover));
    assert(same_at(a, b, Prop::LinkBackground));
    assert(same_at(a, b, Prop::LinkBackgroundHover));
    assert(same_at(a, b, Prop::LinkStyle));
    assert(same_at(a, b, Prop::LinkStyleHover));
}
/// a declaration that is not additive leaves nothing of the value before
proof fn lemma_overwrites(s1: ComputedStyle, s2: ComputedStyle, d: Declaration, t: Theme, r1: ComputedStyle, r2: ComputedStyle, p: Prop)
    requires applies(s1, d, t, r1), applies(s2, d, t, r2), names(d, p), !additive(p)
    ensures same_at(r1, r2, p)
{}
}
