//! C03: what a terminal shows after each flush.
use crate::c02::{self, Model, step};
use crate::src::Src;
use crossterm::style::Color;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use textual::Canvas;
use textual::canvas::{Cell, TextAttributes};

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
}
/// Everything written to standard output while `f` runs.
pub fn captured(f: impl FnOnce()) -> Vec<u8> {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    std::io::stdout().flush().unwrap();
    unsafe {
        let fd = memfd_create(c"flush".as_ptr(), 0);
        assert!(fd >= 0, "memfd");
        let mut file = std::fs::File::from_raw_fd(fd);
        let saved = dup(1);
        assert!(saved >= 0 && dup2(file.as_raw_fd(), 1) >= 0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = std::io::stdout().flush();
        dup2(saved, 1);
        close(saved);
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
        let mut v = vec![];
        file.seek(SeekFrom::Start(0)).unwrap();
        file.read_to_end(&mut v).unwrap();
        v
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Pos {
    pub sym: String,
    pub right: bool,
    pub width: usize,
    pub fg: Option<Color>,
    pub bg: Option<Color>,
    pub attrs: TextAttributes,
}
pub struct Term {
    w: usize,
    h: usize,
    pub cells: Vec<Pos>,
    x: usize,
    y: usize,
    wrap: bool,
    fg: Option<Color>,
    bg: Option<Color>,
    attrs: TextAttributes,
}
fn junk() -> Pos {
    Pos { sym: "¿".into(), right: false, width: 1, fg: Some(Color::Red), bg: Some(Color::Cyan), attrs: TextAttributes { italic: true, ..Default::default() } }
}
impl Term {
    fn new(w: usize, h: usize) -> Self {
        let mut t = Term { w, h, cells: vec![], x: 0, y: 0, wrap: false, fg: None, bg: None, attrs: TextAttributes::default() };
        t.scramble();
        t
    }
    /// contents and state nobody knows
    fn scramble(&mut self) {
        self.cells = vec![junk(); self.w * self.h];
        self.fg = Some(Color::Green);
        self.attrs.reverse = true;
    }
    fn put(&mut self, g: &str, n: usize) {
        if self.wrap || self.x + n > self.w {
            self.x = 0;
            self.y += 1;
            self.wrap = false;
            assert!(self.y < self.h, "the terminal scrolls");
        }
        let p = self.y * self.w + self.x;
        for i in p..p + n {
            if self.cells[i].right && i == p {
                self.cells[p - 1] = junk();
            }
            if i + 1 < self.cells.len() && self.cells[i].width == 2 && !self.cells[i].right {
                self.cells[i + 1] = junk();
            }
        }
        for i in p..p + n {
            self.cells[i] = Pos { sym: if i == p { g.into() } else { String::new() }, right: i > p, width: n, fg: self.fg, bg: self.bg, attrs: self.attrs };
        }
        self.x += n;
        if self.x >= self.w {
            self.x = self.w - 1;
            self.wrap = true;
        }
    }
    fn sgr(&mut self, p: &[usize]) {
        let mut i = 0;
        while i < p.len() {
            match p[i] {
                0 => (self.fg, self.bg, self.attrs) = (None, None, TextAttributes::default()),
                1 => self.attrs.bold = true,
                2 => self.attrs.dim = true,
                3 => self.attrs.italic = true,
                4 => self.attrs.underline = true,
                7 => self.attrs.reverse = true,
                9 => self.attrs.strike = true,
                22 => (self.attrs.bold, self.attrs.dim) = (false, false),
                23 => self.attrs.italic = false,
                24 => self.attrs.underline = false,
                27 => self.attrs.reverse = false,
                29 => self.attrs.strike = false,
                39 => self.fg = None,
                49 => self.bg = None,
                k @ (38 | 48) => {
                    assert!(p.len() > i + 4 && p[i + 1] == 2, "colour sequence {p:?}");
                    let c = Some(Color::Rgb { r: p[i + 2] as u8, g: p[i + 3] as u8, b: p[i + 4] as u8 });
                    if k == 38 { self.fg = c } else { self.bg = c }
                    i += 4;
                }
                k => panic!("the emulated terminal does not know SGR {k}"),
            }
            i += 1;
        }
    }
    fn feed(&mut self, out: &str, known: &[(String, usize)]) {
        let mut rest = out;
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix("\x1b[") {
                let end = r.find(|c: char| c.is_ascii_alphabetic()).expect("unfinished control sequence");
                let body = &r[..end];
                let p: Vec<usize> = body.trim_start_matches('?').split(';').map(|x| x.parse().unwrap_or(0)).collect();
                match r.as_bytes()[end] {
                    b'm' => self.sgr(&p),
                    b'H' => {
                        let (y, x) = (p[0].max(1) - 1, p.get(1).copied().unwrap_or(1).max(1) - 1);
                        (self.x, self.y, self.wrap) = (x.min(self.w - 1), y.min(self.h - 1), false);
                    }
                    b'J' => (0..self.cells.len()).for_each(|i| self.cells[i] = Pos { sym: " ".into(), right: false, width: 1, fg: None, bg: self.bg, attrs: TextAttributes::default() }),
                    b'h' | b'l' => {}
                    c => panic!("the emulated terminal does not know control sequence {}", c as char),
                }
                rest = &r[end + 1..];
                continue;
            }
            match known.iter().filter(|k| rest.starts_with(&k.0)).max_by_key(|k| k.0.len()) {
                Some((g, n)) => {
                    self.put(g, *n);
                    rest = &rest[g.len()..];
                }
                None => panic!("unexpected output {:?}", rest.chars().take(8).collect::<String>()),
            }
        }
    }
}
/// The frame to be shown: the drawn cells, halves of partly overwritten graphemes blank.
fn wanted(c: &[Cell], w: usize) -> Vec<Pos> {
    (0..c.len())
        .map(|i| {
            let col = i % w;
            let lone = if c[i].continuation { col == 0 || c[i - 1].width != 2 || c[i - 1].continuation } else { c[i].width == 2 && (col + 1 == w || !c[i + 1].continuation) };
            let (sym, right, width) = if lone { (" ", false, 1) } else { (c[i].symbol.as_str(), c[i].continuation, c[i].width as usize) };
            Pos { sym: if right { String::new() } else { sym.into() }, right, width, fg: c[i].fg, bg: c[i].bg, attrs: c[i].attrs }
        })
        .collect()
}
pub fn c03_history<S: Src>(s: &mut S) {
    let (w, h) = (s.range(0, 12), s.range(0, 6));
    s.note(&|| format!("terminal {w}x{h}"));
    let mut c = Canvas::new(w as u16, h as u16);
    let mut m = Model::new(w, h);
    crossterm::style::force_color_output(true); // whatever NO_COLOR says
    let mut t = Term::new(w as usize, h as usize);
    let known: Vec<(String, usize)> = c02::GRAPHEMES.iter().chain(&[("é", 1usize)]).map(|(g, n)| (g.to_string(), *n)).collect();
    let first = s.below(2) == 0;
    for f in 0..1 + s.below(5) {
        if f == 0 && first || s.below(4) > 0 {
            c.clear();
            m = Model::new(w, h);
        }
        m.clips.clear();
        for _ in 0..s.below(6) {
            let what = step(s, &mut c, &mut m);
            s.note(&|| what.clone());
        }
        if s.below(5) == 0 {
            // something else wrote on the terminal
            c.invalidate();
            t.scramble();
            s.note(&|| "invalidate".into());
        }
        let cells: Vec<Cell> = (0..(w * h) as usize).map(|i| c.cell_at(i).clone()).collect();
        let out = captured(|| c.flush().unwrap());
        s.note(&|| format!("flush {f}"));
        let out = String::from_utf8(out).expect("UTF-8 output");
        if w * h > 0 {
            t.feed(&out, &known);
        }
        let want = wanted(&cells, w.max(1) as usize);
        for i in 0..want.len() {
            // the style of a two-cell grapheme is that of its left half
            let (a, b) = (&t.cells[i], &want[i]);
            let ok = if b.right { a.right } else { a == b };
            assert!(ok, "after flush {f} position {},{} shows {a:?}, the frame has {b:?} (output {out:?})", i as i64 % w, i as i64 / w);
        }
    }
}
