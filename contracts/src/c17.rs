//! C17: the option list's highlight.
use crate::src::Src;
use crossterm::event::{KeyModifiers, MouseButton};
use textual::widget::option_list::OptionItem;
use textual::{KeyCode, MouseEvent, MouseEventKind, OptionList, Region, Widget};

fn items<S: Src>(s: &mut S) -> Vec<(String, bool)> {
    let n = if s.below(8) == 0 { 0 } else { s.below(9) };
    let mostly = s.below(3);
    (0..n)
        .map(|i| {
            let lines = 1 + s.below(3);
            let text = vec![format!("o{i}"); lines].join("\n");
            (text, match mostly { 0 => s.bool(), 1 => s.below(5) > 0, _ => s.below(5) == 0 })
        })
        .collect()
}
fn make(v: &[(String, bool)]) -> Vec<OptionItem> {
    v.iter().map(|(t, d)| OptionItem::new(t.clone()).disabled(*d)).collect()
}
/// Where the highlight goes when `s` is asked for.
fn settle(v: &[(String, bool)], s: usize) -> usize {
    if v.is_empty() {
        return 0;
    }
    let s = s.min(v.len() - 1);
    (s..v.len()).find(|&i| !v[i].1).or_else(|| (0..s).rev().find(|&i| !v[i].1)).unwrap_or(s)
}
fn inspect(l: &mut OptionList<()>, v: &[(String, bool)], what: &str) -> usize {
    let sel = l.selected_index();
    assert!(l.items().len() == v.len() && l.items().iter().zip(v).all(|(a, b)| *a == b.0), "after {what}: the options are the given ones");
    assert!(sel == 0 || sel < v.len(), "after {what}: highlight {sel} outside a list of {}", v.len());
    if v.iter().any(|x| !x.1) {
        assert!(!v[sel].1, "after {what}: highlight {sel} is a disabled option");
    }
    assert!(l.selected() == v.get(sel).map(|x| x.0.as_str()), "after {what}: selected text");
    let mut lit = vec![];
    let mut i = 0;
    l.for_each_child(&mut |c| {
        if c.has_class("option-list--option-highlighted") {
            lit.push(i);
        }
        i += 1;
    });
    let want: Vec<usize> = if v.get(sel).is_some_and(|x| !x.1) { vec![sel] } else { vec![] };
    assert!(lit == want, "after {what}: options {lit:?} are shown highlighted, {want:?} expected");
    sel
}
pub fn c17_history<S: Src>(s: &mut S) {
    let mut v = items(s);
    let mut l: OptionList<()> = if s.bool() {
        for x in &mut v {
            x.1 = false;
        }
        OptionList::new(v.iter().map(|x| x.0.clone()).collect())
    } else {
        OptionList::new(vec![]).with_items_with_state(make(&v))
    };
    s.note(&|| format!("options {v:?}"));
    let mut sel = inspect(&mut l, &v, "creation");
    assert!(sel == settle(&v, 0), "initial highlight {sel}");
    let n = 1 + s.below(10);
    for _ in 0..n {
        match s.below(8) {
            0..=2 => {
                let down = s.bool();
                s.note(&|| format!("key {}", if down { "Down" } else { "Up" }));
                l.on_event(if down { KeyCode::Down } else { KeyCode::Up });
                let want = if down { (sel + 1..v.len()).find(|&i| !v[i].1) } else { (0..sel.min(v.len())).rev().find(|&i| !v[i].1) }.unwrap_or(sel);
                let got = inspect(&mut l, &v, "a key press");
                assert!(got == want, "the key moved the highlight from {sel} to {got}, nearest enabled is {want}");
                sel = got;
            }
            3 => {
                let k = [KeyCode::Enter, KeyCode::Left, KeyCode::Char('x'), KeyCode::Tab][s.below(4)];
                l.on_event(k);
                let got = inspect(&mut l, &v, "another key");
                assert!(got == sel, "{k:?} moved the highlight");
            }
            4 => {
                let i = if s.below(6) == 0 { usize::MAX } else { s.below(12) };
                s.note(&|| format!("set_selected({i})"));
                l.set_selected(i);
                sel = inspect(&mut l, &v, "set_selected");
                assert!(sel == settle(&v, i), "asked for {i}, highlighted {sel}");
            }
            5 => {
                v = items(s);
                if s.bool() {
                    s.note(&|| format!("set_items_with_state({v:?})"));
                    l.set_items_with_state(make(&v));
                } else {
                    for x in &mut v {
                        x.1 = false;
                    }
                    s.note(&|| format!("set_items({v:?})"));
                    l.set_items(v.iter().map(|x| x.0.clone()).collect());
                }
                let old = sel;
                sel = inspect(&mut l, &v, "a change of the options");
                assert!(sel == settle(&v, old), "highlight was {old}, is {sel}");
            }
            6 => {
                let r = Region { x: s.range(-3, 5) as i32, y: s.range(-3, 5) as i32, width: s.range(0, 10) as i32, height: s.range(0, 12) as i32 };
                let (c, y) = (s.range(0, 14) as u16, s.range(0, 16) as u16);
                let kind = [MouseEventKind::Up(MouseButton::Left), MouseEventKind::Up(MouseButton::Left), MouseEventKind::Up(MouseButton::Right), MouseEventKind::Moved][s.below(4)];
                s.note(&|| format!("{kind:?} at {c},{y} in {r:?}"));
                l.take_pending_selection();
                l.on_mouse(MouseEvent { kind, column: c, row: y, modifiers: KeyModifiers::empty() }, r);
                let inside = (c as i32) >= r.x && (c as i32) < r.x + r.width && (y as i32) >= r.y && (y as i32) < r.y + r.height;
                let mut hit = None;
                if inside && kind == MouseEventKind::Up(MouseButton::Left) {
                    let mut row = y as i32 - r.y;
                    for (i, x) in v.iter().enumerate() {
                        let h = x.0.split('\n').count() as i32;
                        if row < h {
                            hit = Some(i);
                            break;
                        }
                        row -= h;
                    }
                }
                let hit = hit.filter(|&i| !v[i].1);
                let got = inspect(&mut l, &v, "a mouse event");
                assert!(got == hit.unwrap_or(sel), "the click on option {hit:?} left {got} highlighted (before: {sel})");
                assert!(l.take_pending_selection() == hit, "reported selection");
                sel = got;
            }
            _ => {
                let f = s.bool();
                match s.below(4) {
                    0 => l.set_focus(f),
                    1 => l.set_markup(f),
                    2 => l.on_resize(textual::Size { width: s.range(0, 40) as u16, height: 10 }),
                    _ => l.set_style(Default::default()),
                }
                assert!(inspect(&mut l, &v, "a display change") == sel, "a display change moved the highlight");
            }
        }
    }
}
/// What is on the screen: a click selects the option displayed on the clicked row.
pub fn c17_rows<S: Src>(s: &mut S) {
    let n = 1 + s.below(6);
    let v: Vec<(String, bool)> = (0..n)
        .map(|i| {
            let lines = 1 + s.below(4);
            let mut t = String::new();
            for k in 0..lines {
                if k > 0 {
                    t.push('\n');
                }
                if k == 0 || s.below(3) > 0 {
                    t.push_str(&format!("o{i}"));
                    t.push_str(["", "[b]", "]", "\\", "[", " x", "界"][s.below(7)]);
                }
            }
            (t, s.below(4) == 0)
        })
        .collect();
    s.note(&|| format!("options {v:?}"));
    let mut l: OptionList<()> = OptionList::new(vec![]).with_items_with_state(make(&v));
    let css = format!("{}\nStatic {{ height: auto; }}", l.default_css());
    let sheet = tcss::parser::parse_stylesheet(&css).unwrap();
    let h: usize = v.iter().map(|x| x.0.split('\n').count()).sum();
    let (w, y0) = (20u16, s.below(3) as i32);
    l.on_resize(textual::Size { width: w, height: h as u16 });
    textual::style_resolver::resolve_styles(&mut l, &sheet, &tcss::types::Theme::new("t", false), &mut Default::default());
    let region = Region { x: 0, y: y0, width: w as i32, height: h as i32 };
    let mut c = textual::Canvas::new(w, h as u16 + 4);
    l.render(&mut c, region);
    for y in 0..h as i32 + 4 {
        let shown = c.row_str(y);
        let shown = shown.trim_start();
        let Some(i) = shown.strip_prefix('o').and_then(|r| r[..1].parse::<usize>().ok()) else { continue };
        if v[i].1 {
            continue;
        }
        l.on_mouse(MouseEvent { kind: MouseEventKind::Up(MouseButton::Left), column: 0, row: y as u16, modifiers: KeyModifiers::empty() }, region);
        assert!(l.selected_index() == i, "row {y} shows option {i}, but a click there selects option {}", l.selected_index());
        assert!(l.take_pending_selection() == Some(i), "reported selection");
    }
    let seen = (0..h as i32 + 4).filter(|&y| c.row_str(y).trim_start().starts_with('o')).count();
    let want: usize = v.iter().map(|x| x.0.split('\n').filter(|l| !l.is_empty()).count()).sum();
    assert!(seen == want, "{seen} rows of {want} are shown");
}
