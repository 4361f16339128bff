//! C02: drawing and clipping, against a cell-by-cell model.
use crate::src::Src;
use crossterm::style::Color;
use tcss::types::RgbaColor;
use textual::canvas::TextAttributes;
use textual::segment::{Segment, Style};
use textual::strip::Strip;
use textual::{Canvas, Region};

/// Graphemes with their widths; any concatenation has exactly these graphemes.
pub const GRAPHEMES: &[(&str, usize)] =
    &[("a", 1), ("b", 1), (" ", 1), ("z", 1), ("e\u{301}", 1), ("─", 1), ("界", 2), ("🔍", 2), ("❤\u{fe0f}", 2), ("👨\u{200d}👩\u{200d}👧", 2), ("\u{3000}", 2)];

#[derive(Clone, PartialEq, Debug)]
pub struct M {
    pub sym: String,
    pub width: u8,
    pub cont: bool,
    pub fg: Option<Color>,
    pub bg: Option<Color>,
    pub attrs: TextAttributes,
}
pub fn blank() -> M {
    M { sym: " ".into(), width: 1, cont: false, fg: None, bg: None, attrs: TextAttributes::default() }
}
pub fn color<S: Src>(s: &mut S) -> Option<RgbaColor> {
    match s.below(5) {
        0 | 1 => None,
        2 => Some(RgbaColor::rgba(200, 100, 50, 0.5)),
        3 => Some(RgbaColor::rgba(9, 9, 9, 0.0)),
        _ => Some(RgbaColor::rgb(s.below(3) as u8 * 100, s.below(3) as u8 * 70, 7)),
    }
}
pub fn attrs<S: Src>(s: &mut S) -> TextAttributes {
    if s.bool() {
        return TextAttributes::default();
    }
    TextAttributes { bold: s.bool(), dim: s.bool(), italic: s.bool(), underline: s.bool(), strike: s.bool(), reverse: s.bool() }
}
pub fn text<S: Src>(s: &mut S, max: usize) -> Vec<(&'static str, usize)> {
    let ascii = s.bool();
    (0..s.below(max + 1)).map(|_| GRAPHEMES[s.below(if ascii { 4 } else { GRAPHEMES.len() })]).collect()
}
pub fn coord<S: Src>(s: &mut S, size: i64) -> i32 {
    match s.below(8) {
        0 => s.i32(),
        1 => [i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1][s.below(4)],
        _ => s.range(-4, size + 3) as i32,
    }
}
fn over(c: u8, a: f32, base: u8) -> u8 {
    (c as f32 * a + base as f32 * (1.0 - a)).round() as u8
}
fn rgb(c: &RgbaColor) -> Color {
    Color::Rgb { r: c.r, g: c.g, b: c.b }
}
pub struct Model {
    pub w: i64,
    pub h: i64,
    pub cells: Vec<M>,
    pub clips: Vec<Region>,
}
impl Model {
    pub fn new(w: i64, h: i64) -> Self {
        Model { w, h, cells: vec![blank(); (w * h) as usize], clips: vec![] }
    }
    /// Inside the screen and every active clip.
    pub fn open(&self, x: i64, y: i64) -> bool {
        x >= 0
            && y >= 0
            && x < self.w
            && y < self.h
            && self.clips.iter().all(|c| x >= c.x as i64 && x < c.x as i64 + c.width as i64 && y >= c.y as i64 && y < c.y as i64 + c.height as i64)
    }
    pub fn put(&mut self, x: i64, y: i64, g: &str, n: usize, fg: &Option<RgbaColor>, bg: &Option<RgbaColor>, attrs: TextAttributes) {
        if !(0..n as i64).all(|i| self.open(x + i, y)) {
            return;
        }
        let fg = fg.as_ref().map(|c| if c.a >= 1.0 { rgb(c) } else { Color::Rgb { r: over(c.r, c.a, 0), g: over(c.g, c.a, 0), b: over(c.b, c.a, 0) } });
        for i in 0..n {
            let cell = &mut self.cells[(y * self.w + x) as usize + i];
            let under = match cell.bg {
                Some(Color::Rgb { r, g, b }) => (r, g, b),
                _ => (0, 0, 0),
            };
            let new = match bg {
                Some(c) if c.a >= 1.0 => Some(rgb(c)),
                Some(c) if c.a > 0.0 => Some(Color::Rgb { r: over(c.r, c.a, under.0), g: over(c.g, c.a, under.1), b: over(c.b, c.a, under.2) }),
                _ => cell.bg,
            };
            let tint = bg.as_ref().is_some_and(|c| c.a > 0.0 && c.a < 1.0) && g == " " && fg.is_none() && attrs == TextAttributes::default();
            if tint {
                cell.bg = new;
            } else if i == 0 {
                *cell = M { sym: g.into(), width: n as u8, cont: false, fg, bg: new, attrs };
            } else {
                *cell = M { sym: " ".into(), width: 0, cont: true, fg, bg: new, attrs };
            }
        }
    }
    pub fn text(&mut self, x: i64, y: i64, t: &[(&str, usize)], fg: &Option<RgbaColor>, bg: &Option<RgbaColor>, attrs: TextAttributes) -> i64 {
        let mut at = x;
        for (g, n) in t {
            self.put(at, y, g, *n, fg, bg, attrs);
            at += *n as i64;
        }
        at
    }
}
fn close(a: Option<Color>, b: Option<Color>) -> bool {
    match (a, b) {
        (Some(Color::Rgb { r, g, b }), Some(Color::Rgb { r: r2, g: g2, b: b2 })) => r.abs_diff(r2) <= 1 && g.abs_diff(g2) <= 1 && b.abs_diff(b2) <= 1,
        (a, b) => a == b,
    }
}
/// One random drawing step on both.
pub fn step<S: Src>(s: &mut S, c: &mut Canvas, m: &mut Model) -> String {
    match s.below(8) {
        0 => {
            let r = Region { x: coord(s, m.w), y: coord(s, m.h), width: 0, height: 0 };
            let r = if s.below(6) == 0 {
                Region::new(r.x, r.y, s.i32(), s.i32())
            } else {
                Region::new(s.range(-3, m.w) as i32, s.range(-3, m.h) as i32, s.range(-1, m.w + 4) as i32, s.range(-1, m.h + 4) as i32)
            };
            s.assume(r.x.checked_add(r.width).is_some() && r.y.checked_add(r.height).is_some());
            c.push_clip(r);
            m.clips.push(r);
            format!("push_clip({r:?})")
        }
        1 => {
            c.pop_clip();
            m.clips.pop();
            "pop_clip".into()
        }
        2 => {
            let (x, y, g) = (coord(s, m.w), coord(s, m.h), [("a", 1), ("界", 2), (" ", 1), ("─", 1), ("é", 1)][s.below(5)]);
            let (fg, bg, at) = (color(s), color(s), attrs(s));
            c.put_char(x, y, g.0.chars().next().unwrap(), fg.clone(), bg.clone(), at);
            m.put(x as i64, y as i64, g.0, g.1, &fg, &bg, at);
            format!("put_char({x}, {y}, {:?}, {fg:?}, {bg:?})", g.0)
        }
        3 | 4 => {
            let (x, y, t) = (coord(s, m.w), coord(s, m.h), text(s, 9));
            let (fg, bg, at) = (color(s), color(s), attrs(s));
            let str: String = t.iter().map(|g| g.0).collect();
            c.put_str(x, y, &str, fg.clone(), bg.clone(), at);
            m.text(x as i64, y as i64, &t, &fg, &bg, at);
            format!("put_str({x}, {y}, {str:?}, {fg:?}, {bg:?})")
        }
        5 | 6 => {
            let (x, y) = (coord(s, m.w), coord(s, m.h));
            let mut strips = vec![];
            let mut shown = vec![];
            for k in 0..1 + s.below(3) {
                let mut at = x as i64;
                let mut segs = vec![];
                for _ in 0..s.below(4) {
                    let t = text(s, 5);
                    let str: String = t.iter().map(|g| g.0).collect();
                    if s.bool() {
                        let (fg, bg, a) = (color(s), color(s), attrs(s));
                        at = m.text(at, y as i64 + k as i64, &t, &fg, &bg, a);
                        segs.push(Segment::styled(str.clone(), Style { fg, bg, bold: a.bold, dim: a.dim, italic: a.italic, underline: a.underline, strike: a.strike, reverse: a.reverse }));
                    } else {
                        at = m.text(at, y as i64 + k as i64, &t, &None, &None, TextAttributes::default());
                        segs.push(Segment::new(str.clone()));
                    }
                    shown.push(str);
                }
                strips.push(Strip::from_segments(segs));
            }
            if strips.len() == 1 {
                c.render_strip(&strips[0], x, y);
            } else {
                c.render_strips(&strips, x, y);
            }
            format!("render_strips({shown:?}, {x}, {y})")
        }
        _ => {
            if s.below(4) == 0 {
                c.clear();
                *m = Model::new(m.w, m.h);
                return "clear".into();
            }
            "nothing".into()
        }
    }
}
pub fn compare(c: &Canvas, m: &Model, what: &str) {
    for i in 0..m.cells.len() {
        let (a, b) = (c.cell_at(i), &m.cells[i]);
        let (x, y) = (i as i64 % m.w, i as i64 / m.w);
        assert!(
            a.symbol == b.sym && a.width == b.width && a.continuation == b.cont && a.fg.is_some() == b.fg.is_some() && close(a.fg, b.fg) && close(a.bg, b.bg) && a.attrs == b.attrs,
            "after {what}: cell {x},{y} is {a:?}, expected {b:?}"
        );
    }
}
pub fn c02_history<S: Src>(s: &mut S) {
    let (w, h) = (s.range(0, 12), s.range(0, 6));
    let mut c = Canvas::new(w as u16, h as u16);
    let mut m = Model::new(w, h);
    s.note(&|| format!("canvas {w}x{h}"));
    assert!(c.size() == (w as u16, h as u16));
    for _ in 0..1 + s.below(8) {
        let what = step(s, &mut c, &mut m);
        s.note(&|| what.clone());
        compare(&c, &m, &what);
        // translucent colours may be off by one from rounding; do not let that accumulate
        for i in 0..m.cells.len() {
            m.cells[i].fg = c.cell_at(i).fg;
            m.cells[i].bg = c.cell_at(i).bg;
        }
    }
}
/// Large screens have all their cells.
pub fn c02_large<S: Src>(s: &mut S) {
    let w = s.range(200, 700) as i32;
    let h = s.range(90, 300) as i32;
    s.note(&|| format!("canvas {w}x{h}"));
    let mut c = Canvas::new(w as u16, h as u16);
    c.put_char(w - 1, h - 1, 'q', None, None, TextAttributes::default());
    assert!(c.get_char(w - 1, h - 1) == 'q' && c.cell_at((w * h - 1) as usize).symbol == "q", "the last cell of a {w}x{h} screen");
    let x = s.range(0, w as i64 - 1) as i32;
    let y = s.range(0, h as i64 - 2) as i32;
    c.put_char(x, y, 'r', None, None, TextAttributes::default());
    assert!(c.cell_at((y * w + x) as usize).symbol == "r" && c.row_str(y).chars().nth(x as usize) == Some('r'), "cell {x},{y}");
}
