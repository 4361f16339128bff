use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

verus! {
//@ include REAL.rs

// ---------------------------------------------------------------- types
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Region
//@ end
#[derive(Clone, Copy)]
pub struct RgbaColor { pub id: u64 }
#[verifier::external_body]
pub struct TextAttributes;
impl TextAttributes { #[verifier::external_body] fn default() -> TextAttributes { unimplemented!() } }
fn same(c: &RgbaColor) -> (r: RgbaColor) ensures r == *c { *c }
/// the last character put into a cell, with its colours
pub struct Look { pub ch: char, pub fg: Option<RgbaColor>, pub bg: Option<RgbaColor> }
/// what is where, if anything was put there
pub type Picture = spec_fn((int, int)) -> Option<Look>;
pub open spec fn put(m: Picture, x: int, y: int, l: Look) -> Picture { |p: (int, int)| if p == (x, y) { Some(l) } else { m(p) } }
#[verifier::external_body]
pub struct Canvas;
impl Canvas {
    pub uninterp spec fn m(&self) -> Picture;
    /// (clipping and wide characters: C02)
    #[verifier::external_body]
    fn put_char(&mut self, x: i32, y: i32, c: char, fg: Option<RgbaColor>, bg: Option<RgbaColor>, attrs: TextAttributes)
        ensures final(self).m() == put(old(self).m(), x as int, y as int, Look { ch: c, fg, bg }) { unimplemented!() }
}
pub struct ScrollbarGlyphs;
impl ScrollbarGlyphs {
pub
//@ extract crates/textual/src/scrollbar.rs const VERTICAL
//@ end
pub
//@ extract crates/textual/src/scrollbar.rs const HORIZONTAL
//@ end
pub
//@ extract crates/textual/src/scrollbar.rs const BODY
//@ end
}

// ---------------------------------------------------------------- the thumb (numbers read as reals)
/// how long the thumb is, in cells
pub open spec fn length(size: int, whole: real, window: real) -> real { rmax(rdiv(window, rdiv(whole, size as real)), 1real) }
/// where it begins
pub open spec fn begins(size: int, whole: real, window: real, pos: real) -> real { rmul(size as real - length(size, whole, window), rdiv(pos, whole - window)) }
pub open spec fn up(x: real) -> int { -((-x).floor()) }
/// a window smaller than the content, and a position in range
pub open spec fn sane(size: int, whole: real, window: real, pos: real) -> bool { 0 < size && size < 0x100_0000 && 0real < window && window < whole && 0real <= pos && pos <= whole - window }
/// as painted, in eighths of a cell
pub open spec fn from8(size: int, whole: real, window: real, pos: real) -> int { trunc(rmul(begins(size, whole, window, pos), 8real)) }
pub open spec fn to8(size: int, whole: real, window: real, pos: real) -> int { from8(size, whole, window, pos) + up(rmul(length(size, whole, window), 8real)) }
/// as grabbed, in cells
pub open spec fn from1(size: int, whole: real, window: real, pos: real) -> int { trunc(begins(size, whole, window, pos)) }
pub open spec fn to1(size: int, whole: real, window: real, pos: real) -> int { from1(size, whole, window, pos) + up(length(size, whole, window)) }

proof fn lemma_fraction(a: real, b: real) requires 0real <= a, a <= b, 0real < b ensures 0real <= rdiv(a, b) && rdiv(a, b) <= 1real, a == 0real ==> rdiv(a, b) == 0real, a == b ==> rdiv(a, b) == 1real
{
    reveal(rdiv);
    let q = a / b;
    assert(q * b == a) by(nonlinear_arith) requires q == a / b, b > 0real;
    assert(q >= 0real) by(nonlinear_arith) requires q * b == a, a >= 0real, b > 0real;
    assert(q <= 1real) by(nonlinear_arith) requires q * b == a, a <= b, b > 0real;
    if a == 0real { assert(q == 0real) by(nonlinear_arith) requires q * b == a, a == 0real, b > 0real; }
    if a == b { assert(q == 1real) by(nonlinear_arith) requires q * b == a, a == b, b > 0real; }
}
proof fn lemma_fraction_order(a: real, c: real, b: real) requires a <= c, 0real < b ensures rdiv(a, b) <= rdiv(c, b)
{
    reveal(rdiv);
    let (p, q) = (a / b, c / b);
    assert(p * b == a) by(nonlinear_arith) requires p == a / b, b > 0real;
    assert(q * b == c) by(nonlinear_arith) requires q == c / b, b > 0real;
    assert(p <= q) by(nonlinear_arith) requires p * b <= q * b, b > 0real;
}
/// the visible part of the track, never less than a cell and never more than the track
proof fn lemma_length(size: int, whole: real, window: real)
    requires 0 < size, 0real < window, window < whole
    ensures 1real <= length(size, whole, window) && length(size, whole, window) <= size as real,
        length(size, whole, window) == rmax((size as real) * window / whole, 1real)
{
    reveal(rdiv);
    let s = size as real;
    let k = whole / s;
    assert(k * s == whole) by(nonlinear_arith) requires k == whole / s, s > 0real;
    assert(k > 0real) by(nonlinear_arith) requires k * s == whole, whole > 0real, s > 0real;
    let l = window / k;
    assert(l * k == window) by(nonlinear_arith) requires l == window / k, k > 0real;
    assert(l <= s) by(nonlinear_arith) requires l * k == window, k * s == whole, window < whole, k > 0real;
    let r = s * window / whole;
    assert(r * whole == s * window) by(nonlinear_arith) requires r == s * window / whole, whole > 0real;
    assert(r == l) by(nonlinear_arith) requires r * whole == s * window, l * k == window, k * s == whole, whole > 0real;
}
proof fn lemma_begins(size: int, whole: real, window: real, pos: real)
    requires sane(size, whole, window, pos)
    ensures ({ let b = begins(size, whole, window, pos); let rest = size as real - length(size, whole, window);
        &&& 0real <= b && b <= rest && rest >= 0real
        &&& (pos == 0real ==> b == 0real)
        &&& (pos == whole - window ==> b == rest) })
{
    reveal(rmul);
    lemma_length(size, whole, window);
    lemma_fraction(pos, whole - window);
    let (rest, f) = (size as real - length(size, whole, window), rdiv(pos, whole - window));
    assert(0real <= rest * f && rest * f <= rest) by(nonlinear_arith) requires rest >= 0real, 0real <= f, f <= 1real;
    if f == 0real { assert(rest * f == 0real) by(nonlinear_arith) requires f == 0real; }
    if f == 1real { assert(rest * f == rest) by(nonlinear_arith) requires f == 1real; }
}
/// an interval that begins at b and is l long, on a track of n, cut to whole steps
proof fn lemma_cut(b: real, l: real, n: int)
    requires 0real <= b, 1real <= l, b + l <= n as real
    ensures 0 <= trunc(b), trunc(b) + up(l) <= n, up(l) >= 1, trunc(b) as real <= b, b < trunc(b) as real + 1real,
        l <= up(l) as real, (up(l) as real) < l + 1real,
        b == 0real ==> trunc(b) == 0, b + l == n as real ==> trunc(b) + up(l) == n
{
    let f = b.floor();
    let c = up(l);
    assert(f as real <= b && b < f as real + 1real);
    assert(f >= 0);
    assert(l <= c as real && (c as real) < l + 1real);
    assert((f + c) as real == f as real + c as real);
    assert(((f + c) as real) < n as real + 1real);
    if b + l == n as real { assert((f + c) as real > n as real - 1real); }
}
/// THE PROPERTY (in numbers): inside the track, at its ends when scrolled to the ends, never empty, within one step, and never backwards.
proof fn theorem_thumb(size: int, whole: real, window: real, pos: real)
    requires sane(size, whole, window, pos)
    ensures ({ let (a, z, l, b) = (from8(size, whole, window, pos), to8(size, whole, window, pos), length(size, whole, window), begins(size, whole, window, pos));
        &&& 0 <= a && a + 8 <= z && z <= 8 * size
        &&& (pos == 0real ==> a == 0) && (pos == whole - window ==> z == 8 * size)
        &&& a as real <= b * 8real && b * 8real < a as real + 1real
        &&& l * 8real <= (z - a) as real && ((z - a) as real) < l * 8real + 1real }),
      ({ let (a, z, l, b) = (from1(size, whole, window, pos), to1(size, whole, window, pos), length(size, whole, window), begins(size, whole, window, pos));
        &&& 0 <= a && a < z && z <= size
        &&& (pos == 0real ==> a == 0) && (pos == whole - window ==> z == size)
        &&& a as real <= b && b < a as real + 1real
        &&& l <= (z - a) as real && ((z - a) as real) < l + 1real })
{
    reveal(rmul);
    lemma_length(size, whole, window);
    lemma_begins(size, whole, window, pos);
    let (l, b) = (length(size, whole, window), begins(size, whole, window, pos));
    lemma_cut(b, l, size);
    lemma_cut(b * 8real, l * 8real, 8 * size);
}
proof fn theorem_forward(size: int, whole: real, window: real, pos: real, next: real)
    requires sane(size, whole, window, pos), sane(size, whole, window, next), pos <= next
    ensures from8(size, whole, window, pos) <= from8(size, whole, window, next), to8(size, whole, window, pos) <= to8(size, whole, window, next),
        from1(size, whole, window, pos) <= from1(size, whole, window, next), to1(size, whole, window, pos) <= to1(size, whole, window, next)
{
    reveal(rmul);
    lemma_length(size, whole, window);
    lemma_begins(size, whole, window, pos); lemma_begins(size, whole, window, next);
    lemma_fraction_order(pos, next, whole - window);
    let (rest, f, g) = (size as real - length(size, whole, window), rdiv(pos, whole - window), rdiv(next, whole - window));
    assert(rest * f <= rest * g) by(nonlinear_arith) requires rest >= 0real, f <= g;
}

proof fn lemma_ratio(size: int, whole: real) requires 0 < size, 0real < whole ensures rdiv(whole, size as real) != 0real
{
    reveal(rdiv);
    let s = size as real;
    let k = whole / s;
    assert(k * s == whole) by(nonlinear_arith) requires k == whole / s, s > 0real;
    assert(k != 0real) by(nonlinear_arith) requires k * s == whole, whole > 0real;
}
proof fn lemma_clip(x: int) ensures in_i32(x) ==> clampi(x) == x {}
/// everything the code computes along the way
proof fn lemma_all(size: int, whole: real, window: real, pos: real)
    requires sane(size, whole, window, pos)
    ensures rdiv(whole, size as real) != 0real,
        cast(rmul(begins(size, whole, window, pos), 8real)) == from8(size, whole, window, pos),
        cast(-((-rmul(length(size, whole, window), 8real)).floor()) as real) == up(rmul(length(size, whole, window), 8real)),
        cast(begins(size, whole, window, pos)) == from1(size, whole, window, pos),
        cast(-((-length(size, whole, window)).floor()) as real) == up(length(size, whole, window)),
        ({ let (a, z) = (from8(size, whole, window, pos), to8(size, whole, window, pos)); 0 <= a && a + 8 <= z && z <= 8 * size }),
        ({ let (a, z) = (from1(size, whole, window, pos), to1(size, whole, window, pos)); 0 <= a && a < z && z <= size }),
{
    lemma_ratio(size, whole);
    theorem_thumb(size, whole, window, pos);
    reveal(cast);
}

// ---------------------------------------------------------------- the picture
pub open spec fn within(p: (int, int), x: int, y: int, w: int, h: int) -> bool { x <= p.0 < x + w && y <= p.1 < y + h }
/// a rectangle of one look over what was there
pub open spec fn fill(m: Picture, x: int, y: int, w: int, h: int, l: Look) -> Picture {
    |p: (int, int)| if within(p, x, y, w, h) { Some(l) } else { m(p) }
}
proof fn lemma_fill_none(m: Picture, x: int, y: int, w: int, h: int, l: Look) requires w <= 0 || h <= 0 ensures fill(m, x, y, w, h, l) == m { assert(fill(m, x, y, w, h, l) =~= m); }
proof fn lemma_fill_cell(m: Picture, x: int, y: int, l: Look) ensures fill(m, x, y, 1, 1, l) == put(m, x, y, l)
{ assert forall|p: (int, int)| within(p, x, y, 1, 1) <==> p == (x, y) by {} assert(fill(m, x, y, 1, 1, l) =~= put(m, x, y, l)); }
proof fn lemma_fill_down(m: Picture, x: int, y: int, w: int, h: int, k: int, l: Look) requires h >= 0, k >= 0 ensures fill(fill(m, x, y, w, h, l), x, y + h, w, k, l) == fill(m, x, y, w, h + k, l)
{ assert(fill(fill(m, x, y, w, h, l), x, y + h, w, k, l) =~= fill(m, x, y, w, h + k, l)); }
proof fn lemma_fill_right(m: Picture, x: int, y: int, w: int, h: int, k: int, l: Look) requires w >= 0, k >= 0 ensures fill(fill(m, x, y, w, h, l), x + w, y, k, h, l) == fill(m, x, y, w + k, h, l)
{ assert(fill(fill(m, x, y, w, h, l), x + w, y, k, h, l) =~= fill(m, x, y, w + k, h, l)); }

/// the part of cell k covered by the thumb, in eighths
pub open spec fn clip8(a: int, k: int) -> int { if a < 8 * k { 0 } else if a > 8 * k + 8 { 8 } else { a - 8 * k } }
/// what shows exactly the eighths lo..hi of a cell as thumb, along the bar: blocks from the lower edge, or from the left edge
pub open spec fn shows(l: Look, lo: int, hi: int, down: bool, thumb: RgbaColor, track: RgbaColor) -> bool {
    if lo >= hi { l.ch == ' ' && l.bg == Some(track) }
    else if lo == 0 && hi == 8 { l.ch == ' ' && l.bg == Some(thumb) }
    else if hi == 8 { l.fg == Some(if down { thumb } else { track }) && l.bg == Some(if down { track } else { thumb }) && l.ch as int == if down { 0x2580 + (8 - lo) } else { 0x2590 - lo } }
    else { lo == 0 && l.fg == Some(if down { track } else { thumb }) && l.bg == Some(if down { thumb } else { track }) && l.ch as int == if down { 0x2580 + (8 - hi) } else { 0x2590 - hi } }
}
/// a bar with a thumb from a to z (eighths) and nothing else painted
pub open spec fn bar(m0: Picture, m: Picture, r: Region, down: bool, a: int, z: int, thumb: RgbaColor, track: RgbaColor) -> bool {
    forall|p: (int, int)| #![trigger m(p)] if within(p, r.x as int, r.y as int, r.width as int, r.height as int) {
        let k = if down { p.1 - r.y } else { p.0 - r.x };
        m(p) is Some && shows(m(p)->Some_0, clip8(a, k), clip8(z, k), down, thumb, track)
    } else { m(p) == m0(p) }
}
pub open spec fn fits(r: Region) -> bool { r.x + r.width <= i32::MAX && r.y + r.height <= i32::MAX && r.width < 0x100_0000 && r.height < 0x100_0000 }

pub open spec fn vertical(i: int) -> char { ScrollbarGlyphs::VERTICAL[i] }
pub open spec fn horizontal(i: int) -> char { ScrollbarGlyphs::HORIZONTAL[i] }
// ---------------------------------------------------------------- the code
pub struct ScrollBarRender;
impl ScrollBarRender {
//@ extract crates/textual/src/scrollbar.rs fn ScrollBarRender::thumb_bounds
//@ ret r
//@ sub SIG:f32 ==> F
//@ sub track_size as f32 ==> F::of(track_size)
//@ sub \b(\d+)\.0\b ==> F::lit(\1)
//@ sub let thumb_position = (.*?) as i32; ==> let thumb_position = \1.to_i32();
//@ sub thumb_size\.ceil\(\) as i32 ==> thumb_size.ceil().to_i32()
//@ sub \((thumb_position \+ [^;]*)\)\.min\(track_size\) ==> imin(\1, track_size)
//@ contract
    requires 0 <= track_size, sane(track_size as int, virtual_size.v@, window_size.v@, position.v@) || track_size == 0 || window_size.v@ >= virtual_size.v@
    ensures
        window_size.v@ >= virtual_size.v@ || track_size == 0 || virtual_size.v@ == track_size as real ==> r == (0i32, 0i32),
        sane(track_size as int, virtual_size.v@, window_size.v@, position.v@) && virtual_size.v@ != track_size as real ==>
            r.0 == from1(track_size as int, virtual_size.v@, window_size.v@, position.v@) && r.1 == to1(track_size as int, virtual_size.v@, window_size.v@, position.v@)
//@ start
    proof { if sane(track_size as int, virtual_size.v@, window_size.v@, position.v@) { lemma_all(track_size as int, virtual_size.v@, window_size.v@, position.v@); } }
//@ end

//@ extract crates/textual/src/scrollbar.rs fn ScrollBarRender::render_vertical
//@ sub SIG:f32 ==> F
//@ sub region\.height as f32 ==> F::of(region.height)
//@ sub len_bars as f32 ==> F::of(len_bars)
//@ sub \b(\d+)\.0\b ==> F::lit(\1)
//@ sub let start = (\([^;]*\)) as i32; ==> let start = \1.to_i32();
//@ sub (\([^;]*?\)\.ceil\(\)) as i32 ==> \1.to_i32()
//@ sub (start|end)\.max\(0\) ==> imax(\1, 0)
//@ sub (\w+)\.max\(0\)\.min\((region\.\w+)\) ==> imin(imax(\1, 0), \2)
//@ sub (\w+_color)\.clone\(\) ==> same(&\1)
//@ sub ScrollbarGlyphs::VERTICAL\.len\(\) ==> 8usize
//@ contract
    requires fits(region), sane(region.height as int, virtual_size.v@, window_size.v@, position.v@) || region.height <= 0 || !draw_thumb
    ensures
        !draw_thumb || virtual_size.v@ == region.height as real ==> region.width > 0 && region.height > 0 ==> bar(old(canvas).m(), final(canvas).m(), region, true, 0, 0, thumb_color, track_color),
        draw_thumb && region.width > 0 && region.height > 0 && virtual_size.v@ != region.height as real ==> bar(old(canvas).m(), final(canvas).m(), region, true,
            from8(region.height as int, virtual_size.v@, window_size.v@, position.v@), to8(region.height as int, virtual_size.v@, window_size.v@, position.v@), thumb_color, track_color),
        region.width <= 0 || region.height <= 0 ==> final(canvas).m() == old(canvas).m()
//@ start
    let ghost m0 = canvas.m();
    let ghost bare = Look { ch: ' ', fg: None, bg: Some(track_color) };
    let ghost full = Look { ch: ' ', fg: Some(thumb_color), bg: Some(thumb_color) };
    let ghost (size_, whole, window, pos) = (region.height as int, virtual_size.v@, window_size.v@, position.v@);
    let ghost (rx, ry, rw, rh) = (region.x as int, region.y as int, region.width as int, region.height as int);
    proof { if sane(size_, whole, window, pos) { lemma_all(size_, whole, window, pos); } }
//@ before_loop 1
    proof { lemma_fill_none(m0, rx, ry, rw, 0, bare); }
//@ loop 1
    invariant fits(region), thickness == region.width, region.width > 0, region.height > 0, 0 <= y,
        rx == region.x, ry == region.y, rw == region.width, bare == (Look { ch: ' ', fg: None, bg: Some(track_color) }),
        canvas.m() == fill(m0, rx, ry, rw, y as int, bare),
//@ before_loop 2
    let ghost m1 = canvas.m();
    proof { lemma_fill_none(m1, rx, ry + y, 0, 1, bare); }
//@ loop 2
    invariant fits(region), thickness == region.width, region.width > 0, region.height > 0, 0 <= x, 0 <= y < region.height,
        rx == region.x, ry == region.y, rw == region.width, bare == (Look { ch: ' ', fg: None, bg: Some(track_color) }),
        canvas.m() == fill(m1, rx, ry + y, x as int, 1, bare),
//@ loop_end 2
    proof { lemma_fill_cell(fill(m1, rx, ry + y, x as int, 1, bare), rx + x, ry + y, bare); lemma_fill_right(m1, rx, ry + y, x as int, 1, 1, bare); }
//@ after_loop 2
    proof { lemma_fill_down(m0, rx, ry, rw, y as int, 1, bare); }
//@ after_loop 1
    let ghost m2 = canvas.m();
    let ghost (from, to) = (from8(size_, whole, window, pos), to8(size_, whole, window, pos));
//@ before_loop 3
    proof { lemma_fill_none(m2, rx, ry + body_start, rw, 0, full); }
//@ loop 3
    invariant fits(region), thickness == region.width, region.width > 0, 0 <= body_start <= body_end <= region.height, body_start <= y_offset,
        rx == region.x, ry == region.y, rw == region.width, full == (Look { ch: ' ', fg: Some(thumb_color), bg: Some(thumb_color) }),
        canvas.m() == fill(m2, rx, ry + body_start, rw, y_offset - body_start, full),
//@ before_loop 4
    let ghost m3 = canvas.m();
    proof { lemma_fill_none(m3, rx, ry + y_offset, 0, 1, full); }
//@ loop 4
    invariant fits(region), thickness == region.width, region.width > 0, 0 <= x, screen_y == ry + y_offset,
        rx == region.x, ry == region.y, rw == region.width, full == (Look { ch: ' ', fg: Some(thumb_color), bg: Some(thumb_color) }),
        canvas.m() == fill(m3, rx, ry + y_offset, x as int, 1, full),
//@ loop_end 4
    proof { lemma_fill_cell(fill(m3, rx, ry + y_offset, x as int, 1, full), rx + x, ry + y_offset, full); lemma_fill_right(m3, rx, ry + y_offset, x as int, 1, 1, full); }
//@ after_loop 4
    proof { lemma_fill_down(m2, rx, ry + body_start, rw, y_offset - body_start, 1, full); }
//@ after_loop 3
    let ghost m4 = canvas.m();
    proof { if body_end == body_start { lemma_fill_none(m2, rx, ry + body_start, rw, 0, full); } }
    let ghost head = Look { ch: vertical(7 - from % 8), fg: Some(thumb_color), bg: Some(track_color) };
    let ghost tail = Look { ch: vertical(7 - to % 8), fg: Some(track_color), bg: Some(thumb_color) };
//@ before_loop 5
    proof { lemma_fill_none(m4, rx, ry + start_index, 0, 1, head); }
//@ loop 5
    invariant fits(region), thickness == region.width, region.width > 0, 0 <= x, screen_y == ry + start_index, bar_char == head.ch,
        rx == region.x, ry == region.y, rw == region.width, head.fg == Some(thumb_color), head.bg == Some(track_color),
        canvas.m() == fill(m4, rx, ry + start_index, x as int, 1, head),
//@ loop_end 5
    proof { lemma_fill_cell(fill(m4, rx, ry + start_index, x as int, 1, head), rx + x, ry + start_index, head); lemma_fill_right(m4, rx, ry + start_index, x as int, 1, 1, head); }
//@ before_loop 6
    let ghost m5 = canvas.m();
    proof { lemma_fill_none(m5, rx, ry + end_index, 0, 1, tail); }
//@ loop 6
    invariant fits(region), thickness == region.width, region.width > 0, 0 <= x, screen_y == ry + end_index, bar_char == tail.ch,
        rx == region.x, ry == region.y, rw == region.width, tail.fg == Some(track_color), tail.bg == Some(thumb_color),
        canvas.m() == fill(m5, rx, ry + end_index, x as int, 1, tail),
//@ loop_end 6
    proof { lemma_fill_cell(fill(m5, rx, ry + end_index, x as int, 1, tail), rx + x, ry + end_index, tail); lemma_fill_right(m5, rx, ry + end_index, x as int, 1, 1, tail); }
//@ end

//@ extract crates/textual/src/scrollbar.rs fn ScrollBarRender::render_horizontal
//@ sub SIG:f32 ==> F
//@ sub region\.width as f32 ==> F::of(region.width)
//@ sub len_bars as f32 ==> F::of(len_bars)
//@ sub \b(\d+)\.0\b ==> F::lit(\1)
//@ sub let start = (\([^;]*\)) as i32; ==> let start = \1.to_i32();
//@ sub (\([^;]*?\)\.ceil\(\)) as i32 ==> \1.to_i32()
//@ sub (start|end)\.max\(0\) ==> imax(\1, 0)
//@ sub (\w+)\.max\(0\)\.min\((region\.\w+)\) ==> imin(imax(\1, 0), \2)
//@ sub (\w+_color)\.clone\(\) ==> same(&\1)
//@ sub ScrollbarGlyphs::HORIZONTAL\.len\(\) ==> 8usize
//@ contract
    requires fits(region), sane(region.width as int, virtual_size.v@, window_size.v@, position.v@) || region.width <= 0 || !draw_thumb
    ensures
        !draw_thumb || virtual_size.v@ == region.width as real ==> region.width > 0 && region.height > 0 ==> bar(old(canvas).m(), final(canvas).m(), region, false, 0, 0, thumb_color, track_color),
        draw_thumb && region.width > 0 && region.height > 0 && virtual_size.v@ != region.width as real ==> bar(old(canvas).m(), final(canvas).m(), region, false,
            from8(region.width as int, virtual_size.v@, window_size.v@, position.v@), to8(region.width as int, virtual_size.v@, window_size.v@, position.v@), thumb_color, track_color),
        region.width <= 0 || region.height <= 0 ==> final(canvas).m() == old(canvas).m()
//@ start
    let ghost m0 = canvas.m();
    let ghost bare = Look { ch: ' ', fg: None, bg: Some(track_color) };
    let ghost full = Look { ch: ' ', fg: Some(thumb_color), bg: Some(thumb_color) };
    let ghost (size_, whole, window, pos) = (region.width as int, virtual_size.v@, window_size.v@, position.v@);
    let ghost (rx, ry, rw, rh) = (region.x as int, region.y as int, region.width as int, region.height as int);
    proof { if sane(size_, whole, window, pos) { lemma_all(size_, whole, window, pos); } }
//@ before_loop 1
    proof { lemma_fill_none(m0, rx, ry, rw, 0, bare); }
//@ loop 1
    invariant fits(region), thickness == region.height, region.width > 0, region.height > 0, 0 <= y,
        rx == region.x, ry == region.y, rw == region.width, rh == region.height, bare == (Look { ch: ' ', fg: None, bg: Some(track_color) }),
        canvas.m() == fill(m0, rx, ry, rw, y as int, bare),
//@ before_loop 2
    let ghost m1 = canvas.m();
    proof { lemma_fill_none(m1, rx, ry + y, 0, 1, bare); }
//@ loop 2
    invariant fits(region), thickness == region.height, region.width > 0, region.height > 0, 0 <= x, 0 <= y < region.height,
        rx == region.x, ry == region.y, rw == region.width, rh == region.height, bare == (Look { ch: ' ', fg: None, bg: Some(track_color) }),
        canvas.m() == fill(m1, rx, ry + y, x as int, 1, bare),
//@ loop_end 2
    proof { lemma_fill_cell(fill(m1, rx, ry + y, x as int, 1, bare), rx + x, ry + y, bare); lemma_fill_right(m1, rx, ry + y, x as int, 1, 1, bare); }
//@ after_loop 2
    proof { lemma_fill_down(m0, rx, ry, rw, y as int, 1, bare); }
//@ after_loop 1
    let ghost m2 = canvas.m();
    let ghost (from, to) = (from8(size_, whole, window, pos), to8(size_, whole, window, pos));
//@ before_loop 3
    proof { lemma_fill_none(m2, rx + body_start, ry, 0, rh, full); }
//@ loop 3
    invariant fits(region), thickness == region.height, region.height > 0, 0 <= body_start <= body_end <= region.width, body_start <= x_offset,
        rx == region.x, ry == region.y, rh == region.height, full == (Look { ch: ' ', fg: Some(thumb_color), bg: Some(thumb_color) }),
        canvas.m() == fill(m2, rx + body_start, ry, x_offset - body_start, rh, full),
//@ before_loop 4
    let ghost m3 = canvas.m();
    proof { lemma_fill_none(m3, rx + x_offset, ry, 1, 0, full); }
//@ loop 4
    invariant fits(region), thickness == region.height, region.height > 0, 0 <= y, screen_x == rx + x_offset,
        rx == region.x, ry == region.y, rh == region.height, full == (Look { ch: ' ', fg: Some(thumb_color), bg: Some(thumb_color) }),
        canvas.m() == fill(m3, rx + x_offset, ry, 1, y as int, full),
//@ loop_end 4
    proof { lemma_fill_cell(fill(m3, rx + x_offset, ry, 1, y as int, full), rx + x_offset, ry + y, full); lemma_fill_down(m3, rx + x_offset, ry, 1, y as int, 1, full); }
//@ after_loop 4
    proof { lemma_fill_right(m2, rx + body_start, ry, x_offset - body_start, rh, 1, full); }
//@ after_loop 3
    let ghost m4 = canvas.m();
    let ghost head = Look { ch: horizontal(7 - from % 8), fg: Some(track_color), bg: Some(thumb_color) };
    let ghost tail = Look { ch: horizontal(7 - to % 8), fg: Some(thumb_color), bg: Some(track_color) };
//@ before_loop 5
    proof { lemma_fill_none(m4, rx + start_index, ry, 1, 0, head); }
//@ loop 5
    invariant fits(region), thickness == region.height, region.height > 0, 0 <= y, screen_x == rx + start_index, bar_char == head.ch,
        rx == region.x, ry == region.y, rh == region.height, head.fg == Some(track_color), head.bg == Some(thumb_color),
        canvas.m() == fill(m4, rx + start_index, ry, 1, y as int, head),
//@ loop_end 5
    proof { lemma_fill_cell(fill(m4, rx + start_index, ry, 1, y as int, head), rx + start_index, ry + y, head); lemma_fill_down(m4, rx + start_index, ry, 1, y as int, 1, head); }
//@ before_loop 6
    let ghost m5 = canvas.m();
    proof { lemma_fill_none(m5, rx + end_index, ry, 1, 0, tail); }
//@ loop 6
    invariant fits(region), thickness == region.height, region.height > 0, 0 <= y, screen_x == rx + end_index, bar_char == tail.ch,
        rx == region.x, ry == region.y, rh == region.height, tail.fg == Some(thumb_color), tail.bg == Some(track_color),
        canvas.m() == fill(m5, rx + end_index, ry, 1, y as int, tail),
//@ loop_end 6
    proof { lemma_fill_cell(fill(m5, rx + end_index, ry, 1, y as int, tail), rx + end_index, ry + y, tail); lemma_fill_down(m5, rx + end_index, ry, 1, y as int, 1, tail); }
//@ end
}
}
