//! C19: keylines. The arms of every Unicode box-drawing glyph (from the Unicode names) are the reference.
use crate::src::Src;
use tcss::types::RgbaColor;
use textual::box_drawing::{Quad, combine_quads, get_box_char};
use textual::keyline_canvas::KeylineCanvas;
use textual::{Canvas, Region};

/// (up, right, down, left); 1 light, 2 heavy, 3 double
const GLYPHS: &[(char, Quad)] = &[
    ('╴', (0, 0, 0, 1)),
    ('╸', (0, 0, 0, 2)),
    ('╷', (0, 0, 1, 0)),
    ('┐', (0, 0, 1, 1)),
    ('┑', (0, 0, 1, 2)),
    ('╕', (0, 0, 1, 3)),
    ('╻', (0, 0, 2, 0)),
    ('┒', (0, 0, 2, 1)),
    ('┓', (0, 0, 2, 2)),
    ('╖', (0, 0, 3, 1)),
    ('╗', (0, 0, 3, 3)),
    ('╶', (0, 1, 0, 0)),
    ('─', (0, 1, 0, 1)),
    ('╾', (0, 1, 0, 2)),
    ('┌', (0, 1, 1, 0)),
    ('┬', (0, 1, 1, 1)),
    ('┭', (0, 1, 1, 2)),
    ('┎', (0, 1, 2, 0)),
    ('┰', (0, 1, 2, 1)),
    ('┱', (0, 1, 2, 2)),
    ('╓', (0, 1, 3, 0)),
    ('╥', (0, 1, 3, 1)),
    ('╺', (0, 2, 0, 0)),
    ('╼', (0, 2, 0, 1)),
    ('━', (0, 2, 0, 2)),
    ('┍', (0, 2, 1, 0)),
    ('┮', (0, 2, 1, 1)),
    ('┯', (0, 2, 1, 2)),
    ('┏', (0, 2, 2, 0)),
    ('┲', (0, 2, 2, 1)),
    ('┳', (0, 2, 2, 2)),
    ('═', (0, 3, 0, 3)),
    ('╒', (0, 3, 1, 0)),
    ('╤', (0, 3, 1, 3)),
    ('╔', (0, 3, 3, 0)),
    ('╦', (0, 3, 3, 3)),
    ('╵', (1, 0, 0, 0)),
    ('┘', (1, 0, 0, 1)),
    ('┙', (1, 0, 0, 2)),
    ('╛', (1, 0, 0, 3)),
    ('│', (1, 0, 1, 0)),
    ('┤', (1, 0, 1, 1)),
    ('┥', (1, 0, 1, 2)),
    ('╡', (1, 0, 1, 3)),
    ('╽', (1, 0, 2, 0)),
    ('┧', (1, 0, 2, 1)),
    ('┪', (1, 0, 2, 2)),
    ('└', (1, 1, 0, 0)),
    ('┴', (1, 1, 0, 1)),
    ('┵', (1, 1, 0, 2)),
    ('├', (1, 1, 1, 0)),
    ('┼', (1, 1, 1, 1)),
    ('┽', (1, 1, 1, 2)),
    ('┟', (1, 1, 2, 0)),
    ('╁', (1, 1, 2, 1)),
    ('╅', (1, 1, 2, 2)),
    ('┕', (1, 2, 0, 0)),
    ('┶', (1, 2, 0, 1)),
    ('┷', (1, 2, 0, 2)),
    ('┝', (1, 2, 1, 0)),
    ('┾', (1, 2, 1, 1)),
    ('┿', (1, 2, 1, 2)),
    ('┢', (1, 2, 2, 0)),
    ('╆', (1, 2, 2, 1)),
    ('╈', (1, 2, 2, 2)),
    ('╘', (1, 3, 0, 0)),
    ('╧', (1, 3, 0, 3)),
    ('╞', (1, 3, 1, 0)),
    ('╪', (1, 3, 1, 3)),
    ('╹', (2, 0, 0, 0)),
    ('┚', (2, 0, 0, 1)),
    ('┛', (2, 0, 0, 2)),
    ('╿', (2, 0, 1, 0)),
    ('┦', (2, 0, 1, 1)),
    ('┩', (2, 0, 1, 2)),
    ('┃', (2, 0, 2, 0)),
    ('┨', (2, 0, 2, 1)),
    ('┫', (2, 0, 2, 2)),
    ('┖', (2, 1, 0, 0)),
    ('┸', (2, 1, 0, 1)),
    ('┹', (2, 1, 0, 2)),
    ('┞', (2, 1, 1, 0)),
    ('╀', (2, 1, 1, 1)),
    ('╃', (2, 1, 1, 2)),
    ('┠', (2, 1, 2, 0)),
    ('╂', (2, 1, 2, 1)),
    ('╉', (2, 1, 2, 2)),
    ('┗', (2, 2, 0, 0)),
    ('┺', (2, 2, 0, 1)),
    ('┻', (2, 2, 0, 2)),
    ('┡', (2, 2, 1, 0)),
    ('╄', (2, 2, 1, 1)),
    ('╇', (2, 2, 1, 2)),
    ('┣', (2, 2, 2, 0)),
    ('╊', (2, 2, 2, 1)),
    ('╋', (2, 2, 2, 2)),
    ('╜', (3, 0, 0, 1)),
    ('╝', (3, 0, 0, 3)),
    ('║', (3, 0, 3, 0)),
    ('╢', (3, 0, 3, 1)),
    ('╣', (3, 0, 3, 3)),
    ('╙', (3, 1, 0, 0)),
    ('╨', (3, 1, 0, 1)),
    ('╟', (3, 1, 3, 0)),
    ('╫', (3, 1, 3, 1)),
    ('╚', (3, 3, 0, 0)),
    ('╩', (3, 3, 0, 3)),
    ('╠', (3, 3, 3, 0)),
    ('╬', (3, 3, 3, 3)),
];
fn arms(c: char) -> Option<Quad> {
    GLYPHS.iter().find(|g| g.0 == c).map(|g| g.1)
}
/// All 4^4 combinations on every run, and arbitrary ones.
pub fn c19_glyphs<S: Src>(s: &mut S) {
    let check = |q: Quad| {
        let v = [q.0, q.1, q.2, q.3];
        match get_box_char(q) {
            Some(c) => assert!(arms(c) == Some(q), "arms {q:?} are drawn as {c:?}, which has arms {:?}", arms(c)),
            None => {
                let used: Vec<u8> = v.iter().copied().filter(|x| *x > 0).collect();
                let uniform = !used.is_empty() && used.iter().all(|x| *x == used[0] && *x <= 3);
                assert!(!uniform || (used[0] == 3 && used.len() == 1), "no glyph for {q:?}");
            }
        }
    };
    for i in 0..256u32 {
        check(((i & 3) as u8, (i >> 2 & 3) as u8, (i >> 4 & 3) as u8, (i >> 6) as u8));
    }
    let q = (s.u8(), s.u8(), s.u8(), s.u8());
    s.note(&|| format!("arms {q:?}"));
    check(q);
}
pub fn c19_combine<S: Src>(s: &mut S) {
    let (a, b) = ((s.u8(), s.u8(), s.u8(), s.u8()), (s.u8(), s.u8(), s.u8(), s.u8()));
    s.note(&|| format!("{a:?} with {b:?}"));
    let c = combine_quads(a, b);
    let m = |x: u8, y: u8| if x < y { y } else { x };
    assert!(c == (m(a.0, b.0), m(a.1, b.1), m(a.2, b.2), m(a.3, b.3)), "combining {a:?} with {b:?} gives {c:?}");
}

/// Positions strictly increasing.
fn positions<S: Src>(s: &mut S, n: usize) -> Vec<usize> {
    let mut p = vec![];
    let mut at = s.below(4);
    for _ in 0..n {
        p.push(at);
        at += 1 + s.below(5);
    }
    p
}
struct Arms {
    w: usize,
    h: usize,
    q: Vec<[bool; 4]>,
}
impl Arms {
    fn add(&mut self, x: usize, y: usize, arm: usize) {
        if x < self.w && y < self.h {
            self.q[y * self.w + x][arm] = true;
        }
    }
    fn hline(&mut self, x0: usize, x1: usize, y: usize) {
        for x in x0..x1 {
            self.add(x, y, 1);
            self.add(x + 1, y, 3);
        }
    }
    fn vline(&mut self, x: usize, y0: usize, y1: usize) {
        for y in y0..y1 {
            self.add(x, y, 2);
            self.add(x, y + 1, 0);
        }
    }
}
/// Boxes and grids drawn into one keyline canvas and rendered at a region of a terminal canvas.
pub fn c19_drawing<S: Src>(s: &mut S) {
    let (w, h) = (s.below(14), s.below(10));
    let lt = 1 + s.below(3) as u8;
    let mut a = Arms { w, h, q: vec![[false; 4]; w * h] };
    let mut k = KeylineCanvas::new(w, h, lt, RgbaColor::rgb(10, 20, 30));
    s.note(&|| format!("area {w}x{h}, line type {lt}"));
    let mut steps = vec![];
    for _ in 0..s.below(4) {
        match s.below(3) {
            0 => {
                let (x, y) = (s.below(16), s.below(12));
                let (bw, bh) = (s.below(12), s.below(10));
                s.assume(bw != 1 && bh != 1);
                k.add_widget_box(x, y, bw, bh);
                if bw > 0 && bh > 0 {
                    a.hline(x, x + bw - 1, y);
                    a.hline(x, x + bw - 1, y + bh - 1);
                    a.vline(x, y, y + bh - 1);
                    a.vline(x + bw - 1, y, y + bh - 1);
                }
                steps.push(format!("box {x},{y} {bw}x{bh}"));
            }
            1 => {
                let (nc, nr) = (s.below(5), s.below(5));
                let (c, r) = (positions(s, nc), positions(s, nr));
                k.add_grid(&c, &r);
                if nc >= 2 && nr >= 2 {
                    r.iter().for_each(|y| a.hline(c[0], c[nc - 1], *y));
                    c.iter().for_each(|x| a.vline(*x, r[0], r[nr - 1]));
                }
                steps.push(format!("grid {c:?} {r:?}"));
            }
            _ => {
                let (nc, nr) = (s.below(5), s.below(5));
                let (c, r) = (positions(s, nc), positions(s, nr));
                let occ: Vec<Vec<Option<usize>>> = (0..s.below(5)).map(|_| (0..s.below(5)).map(|_| if s.bool() { Some(s.below(3)) } else { None }).collect()).collect();
                k.add_grid_with_occupancy(&c, &r, &occ);
                let at = |i: usize, j: usize| occ.get(i).and_then(|v| v.get(j)).copied().flatten();
                if nc >= 2 && nr >= 2 {
                    for i in 0..nr {
                        for j in 0..nc - 1 {
                            if i == 0 || i == nr - 1 || at(i - 1, j) != at(i, j) {
                                a.hline(c[j], c[j + 1], r[i]);
                            }
                        }
                    }
                    for j in 0..nc {
                        for i in 0..nr - 1 {
                            if j == 0 || j == nc - 1 || at(i, j - 1) != at(i, j) {
                                a.vline(c[j], r[i], r[i + 1]);
                            }
                        }
                    }
                }
                steps.push(format!("grid {c:?} {r:?} occupied {occ:?}"));
            }
        }
    }
    let (ox, oy) = (s.range(-3, 4) as i32, s.range(-3, 4) as i32);
    s.note(&|| format!("{steps:?}, rendered at {ox},{oy}"));
    let (cw, ch) = (18i32, 14i32);
    let mut canvas = Canvas::new(cw as u16, ch as u16);
    k.render(&mut canvas, Region::new(ox, oy, w as i32, h as i32));
    for y in 0..ch {
        for x in 0..cw {
            let cell = canvas.cell_at((y * cw + x) as usize);
            let (kx, ky) = (x - ox, y - oy);
            let want = if kx >= 0 && ky >= 0 && (kx as usize) < w && (ky as usize) < h { a.q[ky as usize * w + kx as usize] } else { [false; 4] };
            let on = |b: bool| if b { lt } else { 0 };
            let q = (on(want[0]), on(want[1]), on(want[2]), on(want[3]));
            let got = if cell.symbol == " " { (0, 0, 0, 0) } else { cell.symbol.chars().next().and_then(arms).unwrap_or((9, 9, 9, 9)) };
            assert!(got == q, "cell {x},{y} shows {:?} with arms {got:?}, the lines there have arms {q:?}", cell.symbol);
        }
    }
}
