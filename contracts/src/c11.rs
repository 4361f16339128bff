//! C11: scrollbars. Inputs: a track of 1.. cells, a window smaller than the content, a position in range.
use crate::src::Src;
use crossterm::style::Color;
use tcss::types::RgbaColor;
use textual::{Canvas, Region, ScrollBarRender};

struct Bar {
    track: i32,
    content: i32,
    window: i32,
    pos: f32,
}
fn bar<S: Src>(s: &mut S, max_track: i64, max_content: i64) -> Bar {
    let track = s.range(1, max_track) as i32;
    let content = s.range(2, max_content) as i32;
    let window = s.range(1, content as i64 - 1) as i32;
    s.assume(window < content && content != track);
    let pos = match s.below(4) {
        0 => 0,
        1 => content - window,
        _ => s.range(0, (content - window) as i64) as i32,
    };
    s.note(&|| format!("track {track} content {content} window {window} position {pos}"));
    Bar { track, content, window, pos: pos as f32 }
}
fn bounds(b: &Bar, pos: f32) -> (i32, i32) {
    ScrollBarRender::thumb_bounds(b.track, b.content as f32, b.window as f32, pos)
}
fn thumb_contract(b: &Bar, next: f32) {
    let (start, end) = bounds(b, b.pos);
    assert!(start >= 0 && end <= b.track, "thumb {start}..{end} leaves the track");
    assert!(end > start, "thumb {start}..{end} is empty");
    if b.pos == 0.0 {
        assert!(start == 0, "thumb {start}..{end} does not touch the start");
    }
    if b.pos == (b.content - b.window) as f32 {
        assert!(end == b.track, "thumb {start}..{end} does not reach the end");
    }
    let (s2, e2) = bounds(b, next);
    assert!(s2 >= start && e2 >= end, "thumb moves backwards: {start}..{end} then {s2}..{e2}");
}

pub fn c11_thumb_bounds<S: Src>(s: &mut S) {
    let b = bar(s, 300, 2000);
    let next = b.pos as i32 + s.range(0, (b.content - b.window) as i64 - b.pos as i64) as i32;
    s.note(&|| format!("then {next}"));
    thumb_contract(&b, next as f32);
    // fits: no thumb
    let v = s.range(1, 50) as f32;
    let w = v + s.range(0, 20) as f32;
    assert!(ScrollBarRender::thumb_bounds(b.track, v, w, 0.0) == (0, 0), "a thumb although the content fits");
    // proportional to the visible part
    let (start, end) = bounds(&b, b.pos);
    let ideal = (b.track as f64 * b.window as f64 / b.content as f64).max(1.0);
    let len = (end - start) as f64;
    assert!(len >= ideal - 1.001 && len <= ideal + 1.001, "thumb length {len}, ideal {ideal}");
    let istart = (b.track as f64 - ideal) * b.pos as f64 / (b.content - b.window) as f64;
    assert!((start as f64 - istart).abs() <= 1.001, "thumb start {start}, ideal {istart}");
}

/// All tracks up to 255 cells and contents up to 1023.
pub fn c11_thumb_small<S: Src>(s: &mut S) {
    let track = s.range(1, 255) as i32;
    let content = s.range(2, 1023) as i32;
    let window = s.range(1, 1022) as i32;
    let pos = s.range(0, 1022) as i32;
    s.assume(window < content && content != track && pos <= content - window);
    s.note(&|| format!("track {track} content {content} window {window} position {pos}"));
    let b = Bar { track, content, window, pos: pos as f32 };
    let (start, end) = bounds(&b, b.pos);
    assert!(start >= 0 && end <= b.track, "thumb {start}..{end} leaves the track");
    assert!(end > start, "thumb {start}..{end} is empty");
    if pos == 0 {
        assert!(start == 0, "thumb {start}..{end} does not touch the start");
    }
    if pos == content - window {
        assert!(end == b.track, "thumb {start}..{end} does not reach the end");
    }
}

const TRACK: (u8, u8, u8) = (10, 20, 30);
const THUMB: (u8, u8, u8) = (200, 100, 50);
fn is(c: Option<Color>, k: (u8, u8, u8)) -> bool {
    c == Some(Color::Rgb { r: k.0, g: k.1, b: k.2 })
}
/// Eighths of a cell covered by the thumb, as (from, to) measured from the start of the cell.
fn covered(sym: &str, fg: Option<Color>, bg: Option<Color>, vertical: bool) -> (i32, i32) {
    let lower = "▁▂▃▄▅▆▇".chars().position(|c| sym.chars().eq([c])).map(|i| i as i32 + 1);
    let left = "▏▎▍▌▋▊▉".chars().position(|c| sym.chars().eq([c])).map(|i| i as i32 + 1);
    if sym == " " || sym == "█" {
        let c = if sym == " " { bg } else { fg };
        if is(c, THUMB) {
            return (0, 8);
        }
        assert!(is(c, TRACK), "a cell of the bar is neither track nor thumb: {sym:?} {fg:?} {bg:?}");
        return (0, 0);
    }
    let n = if vertical { lower } else { left };
    let n = n.unwrap_or_else(|| panic!("unexpected glyph {sym:?}"));
    assert!((is(fg, THUMB) && is(bg, TRACK)) || (is(fg, TRACK) && is(bg, THUMB)), "colours of an edge cell");
    match (vertical, is(fg, THUMB)) {
        (true, true) => (8 - n, 8),
        (true, false) => (0, 8 - n),
        (false, true) => (0, n),
        (false, false) => (n, 8),
    }
}
/// The thumb as painted, in eighths of a cell from the start of the track.
fn painted(vertical: bool, b: &Bar, pos: f32, thick: i32, x0: i32, y0: i32) -> (i32, i32) {
    let (w, h) = if vertical { (thick, b.track) } else { (b.track, thick) };
    let mut c = Canvas::new((x0 + w + 2) as u16, (y0 + h + 2) as u16);
    let r = Region { x: x0, y: y0, width: w, height: h };
    let track = RgbaColor::rgb(TRACK.0, TRACK.1, TRACK.2);
    let thumb = RgbaColor::rgb(THUMB.0, THUMB.1, THUMB.2);
    if vertical {
        ScrollBarRender::render_vertical(&mut c, r, b.content as f32, b.window as f32, pos, thumb, track, true);
    } else {
        ScrollBarRender::render_horizontal(&mut c, r, b.content as f32, b.window as f32, pos, thumb, track, true);
    }
    let cw = c.size().0 as i32;
    let mut spans = Vec::new();
    for k in 0..thick {
        let mut first = None;
        let mut last = 0;
        let mut total = 0;
        for i in 0..b.track {
            let (x, y) = if vertical { (x0 + k, y0 + i) } else { (x0 + i, y0 + k) };
            let cell = c.cell_at((y * cw + x) as usize);
            let (f, t) = covered(&cell.symbol, cell.fg, cell.bg, vertical);
            if t > f {
                if first.is_none() {
                    first = Some(i * 8 + f);
                }
                last = i * 8 + t;
                total += t - f;
            }
        }
        let first = first.expect("no thumb is painted");
        assert!(total == last - first, "the painted thumb has a gap: {first}..{last}, {total} eighths painted");
        spans.push((first, last));
    }
    for y in 0..c.size().1 as i32 {
        for x in 0..cw {
            let cell = c.cell_at((y * cw + x) as usize);
            if !r.contains_point(x, y) {
                assert!(cell.bg.is_none() && cell.symbol == " ", "painted outside the bar at {x},{y}");
            } else {
                assert!(cell.bg.is_some(), "cell {x},{y} of the bar is not painted");
            }
        }
    }
    assert!(spans.iter().all(|p| *p == spans[0]), "rows of a thick bar differ");
    spans[0]
}

pub fn c11_painted<S: Src>(s: &mut S) {
    let b = bar(s, 40, 400);
    let vertical = s.bool();
    let thick = s.range(1, 3) as i32;
    let (x0, y0) = (s.range(0, 3) as i32, s.range(0, 3) as i32);
    let next = b.pos as i32 + s.range(0, ((b.content - b.window) as i64 - b.pos as i64).min(9)) as i32;
    s.note(&|| format!("vertical {vertical} thickness {thick} at {x0},{y0} then {next}"));
    let (a, z) = painted(vertical, &b, b.pos, thick, x0, y0);
    let end = b.track * 8;
    assert!(z - a >= 7, "thumb of {} eighths", z - a);
    if b.pos == 0.0 {
        assert!(a == 0, "painted thumb {a}..{z} does not touch the start");
    }
    if b.pos == (b.content - b.window) as f32 {
        assert!(z >= end - 1, "painted thumb {a}..{z} does not reach the end {end}");
    }
    let ideal = 8.0 * (b.track as f64 * b.window as f64 / b.content as f64).max(1.0);
    let istart = (end as f64 - ideal) * b.pos as f64 / (b.content - b.window) as f64;
    assert!((a as f64 - istart).abs() <= 1.01, "painted start {a}, ideal {istart}");
    assert!(((z - a) as f64 - ideal).abs() <= 1.01, "painted length {}, ideal {ideal}", z - a);
    let (a2, z2) = painted(vertical, &b, next as f32, thick, x0, y0);
    assert!(a2 >= a && z2 >= z, "painted thumb moves backwards: {a}..{z} then {a2}..{z2}");
    // without a thumb only the track is painted
}

/// The thumb never moves backwards (two positions).
pub fn c11_thumb_monotone<S: Src>(s: &mut S) {
    let track = s.range(1, 63) as i32;
    let content = s.range(2, 127) as i32;
    let window = s.range(1, 126) as i32;
    let (pos, next) = (s.range(0, 126) as i32, s.range(0, 126) as i32);
    s.assume(window < content && content != track && pos <= next && next <= content - window);
    s.note(&|| format!("track {track} content {content} window {window} positions {pos} {next}"));
    let b = Bar { track, content, window, pos: pos as f32 };
    let (start, end) = bounds(&b, pos as f32);
    let (s2, e2) = bounds(&b, next as f32);
    assert!(s2 >= start && e2 >= end, "thumb moves backwards: {start}..{end} then {s2}..{e2}");
}
