//! C16: keyboard focus. Real trees of real containers and widgets; the reference lists, in document order,
//! the enabled interactive widgets that are not hidden and have nothing hidden around them.
use crate::src::Src;
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::{ComputedStyle, Display};
use textual::tree::WidgetTree;
use textual::widget::app_widget::AppWidget;
use textual::widget::screen::Screen;
use textual::*;

type Log = Rc<RefCell<Vec<usize>>>;
struct N {
    kind: &'static str,
    uid: usize,
    id: Option<&'static str>,
    /// can take focus when enabled
    interactive: bool,
    can_disable: bool,
    can_hide: bool,
    enabled: bool,
    visible: bool,
    shown: bool,
    /// answers the enter key with its uid
    answers: bool,
    kids: Vec<N>,
}
const IDS: [&str; 3] = ["a", "b", "c"];

fn leaf<S: Src>(s: &mut S, uid: usize, log: &Log) -> (Box<dyn Widget<usize>>, N) {
    let id = if s.bool() { Some(IDS[s.below(3)]) } else { None };
    let kind = s.below(6);
    let l = log.clone();
    // an option list has no way to be hidden or disabled as a whole but its style; of the others only a switch can be hidden but by its style
    let mut n = N { kind: ["Switch", "Switch", "Button", "Input", "OptionList", "Label"][kind], uid, id, interactive: kind < 5, can_disable: kind != 4, can_hide: kind < 2, enabled: true, visible: true, shown: true, answers: kind < 3, kids: vec![] };
    macro_rules! named {
        ($w:expr) => {{
            let w = $w;
            match id {
                Some(i) => Box::new(w.with_id(i)) as Box<dyn Widget<usize>>,
                None => Box::new(w),
            }
        }};
    }
    let w = match kind {
        0 | 1 => named!(Switch::new(s.bool(), move |_| {
            l.borrow_mut().push(uid);
            uid
        })),
        2 => named!(Button::new("b").with_on_press(move || {
            l.borrow_mut().push(uid);
            uid
        })),
        3 => named!(Input::new()),
        4 => named!(OptionList::new(vec!["x".to_string(), "y".to_string()])),
        _ => {
            n.can_disable = false;
            n.can_hide = false;
            named!(Label::new("l"))
        }
    };
    (w, n)
}

fn grow<S: Src>(s: &mut S, depth: usize, next: &mut usize, log: &Log) -> (Box<dyn Widget<usize>>, N) {
    let uid = *next;
    *next += 1;
    if depth == 0 || s.below(5) < 2 {
        return leaf(s, uid, log);
    }
    let kind = s.below(10);
    let (mut ws, mut kids) = (vec![], vec![]);
    let count = if kind >= 8 { 1 } else { s.below(4) };
    for _ in 0..count {
        let (w, n) = grow(s, depth - 1, next, log);
        ws.push(w);
        kids.push(n);
    }
    let id = if kind < 8 && s.below(4) == 0 { Some(IDS[s.below(3)]) } else { None };
    macro_rules! named {
        ($w:expr) => {{
            let w = $w;
            match id {
                Some(i) => Box::new(w.with_id(i)) as Box<dyn Widget<usize>>,
                None => Box::new(w),
            }
        }};
    }
    let w: Box<dyn Widget<usize>> = match kind {
        0 => named!(Container::new(ws)),
        1 => named!(Horizontal::new(ws)),
        2 => named!(Vertical::new(ws)),
        3 => named!(Grid::new(ws)),
        4 => named!(ItemGrid::new(ws)),
        5 => named!(ScrollableContainer::new(ws)),
        6 => named!(HorizontalScroll::new(ws)),
        7 => named!(VerticalScroll::new(ws)),
        8 => Box::new(Center::new(ws)),
        _ => Box::new(Middle::new(ws)),
    };
    let names = ["Container", "Horizontal", "Vertical", "Grid", "ItemGrid", "ScrollableContainer", "HorizontalScroll", "VerticalScroll", "Center", "Middle"];
    (w, N { kind: names[kind], uid, id, interactive: false, can_disable: false, can_hide: false, enabled: true, visible: true, shown: true, answers: false, kids })
}
fn show(n: &N) -> String {
    let marks = format!("{}{}{}", if n.enabled { "" } else { "!disabled" }, if n.visible { "" } else { "!hidden" }, if n.shown { "" } else { "!display-none" });
    format!("{}{}{}{}", n.kind, n.id.map_or(String::new(), |i| format!("#{i}")), marks, if n.kids.is_empty() { String::new() } else { format!("[{}]", n.kids.iter().map(show).collect::<Vec<_>>().join(", ")) })
}
fn get<'a>(n: &'a mut N, p: &[usize]) -> &'a mut N {
    match p.first() {
        None => n,
        Some(&k) => get(&mut n.kids[k], &p[1..]),
    }
}
fn real<'a>(w: &'a mut dyn Widget<usize>, p: &[usize]) -> &'a mut dyn Widget<usize> {
    match p.first() {
        None => w,
        Some(&k) => real(w.get_child_mut(k).expect("a child the tree was built with"), &p[1..]),
    }
}
fn everything(n: &N, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(p.clone());
    for (k, c) in n.kids.iter().enumerate() {
        p.push(k);
        everything(c, p, out);
        p.pop();
    }
}
/// the widgets that can take focus, in document order
fn order(n: &N, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if !n.visible || !n.shown {
        return;
    }
    if n.interactive && n.enabled {
        out.push(p.clone());
    }
    for (k, c) in n.kids.iter().enumerate() {
        p.push(k);
        order(c, p, out);
        p.pop();
    }
}
fn listed(n: &N) -> Vec<Vec<usize>> {
    let mut out = vec![];
    order(n, &mut vec![], &mut out);
    out
}
fn addr(w: &mut dyn Widget<usize>) -> usize {
    w as *mut dyn Widget<usize> as *mut () as usize
}
pub fn c16_focus<S: Src>(s: &mut S) {
    let log: Log = Default::default();
    let mut next = 1;
    let (mut ws, mut kids) = (vec![], vec![]);
    for _ in 0..s.below(4) {
        let depth = s.below(4);
        let (w, n) = grow(s, depth, &mut next, &log);
        ws.push(w);
        kids.push(n);
    }
    let mut model = N { kind: "root", uid: 0, id: None, interactive: false, can_disable: false, can_hide: false, enabled: true, visible: true, shown: true, answers: false, kids };
    let root: Box<dyn Widget<usize>> = match s.below(4) {
        0 => Box::new(Container::new(ws)),
        1 => Box::new(Screen::new(ws)),
        2 => Box::new(AppWidget::new(ws)),
        _ => Box::new(Vertical::new(ws)),
    };
    let mut tree = WidgetTree::new(root);
    let mut places = vec![];
    everything(&model, &mut vec![], &mut places);
    // Some(path): the widget that has the focus, nothing changed since
    let mut settled: Option<Vec<usize>> = None;
    let mut moved = false;
    for _ in 0..3 + s.below(14) {
        let all = listed(&model);
        assert_eq!(tree.focusable_count(), all.len(), "widgets that can take focus in {}", show(&model));
        let now: Option<Option<Vec<usize>>> = match s.below(12) {
            // change something
            0..=4 => {
                let p = places[s.below(places.len())].clone();
                if !p.is_empty() {
                    let (n, w) = (get(&mut model, &p), real(tree.root_mut(), &p));
                    let to = s.bool();
                    match s.below(3) {
                        0 if n.can_disable => {
                            w.set_disabled(to);
                            n.enabled = !to;
                        }
                        1 if n.can_hide => {
                            w.set_visible(to);
                            n.visible = to;
                        }
                        2 => {
                            let mut style = ComputedStyle::default();
                            if !to {
                                style.display = Display::None;
                            }
                            w.set_style(style);
                            n.shown = w.get_style().display != Display::None;
                        }
                        _ => {}
                    }
                    settled = None;
                }
                None
            }
            5 | 6 => {
                let was = tree.current_focus_index();
                let r = tree.focus_next();
                assert_eq!(r.is_some(), !all.is_empty(), "focus_next from {was}");
                let to = r.map(|i| all[i].clone());
                if let (Some(from), Some(to)) = (&settled, &to) {
                    let i = all.iter().position(|p| p == from).unwrap();
                    assert_eq!(to, &all[(i + 1) % all.len()], "forward from {from:?}");
                }
                r.map(|_| to)
            }
            7 | 8 => {
                let was = tree.current_focus_index();
                let r = tree.focus_previous();
                assert_eq!(r.is_some(), !all.is_empty(), "focus_previous from {was}");
                let to = r.map(|i| all[i].clone());
                if let (Some(from), Some(to)) = (&settled, &to) {
                    let i = all.iter().position(|p| p == from).unwrap();
                    assert_eq!(to, &all[(i + all.len() - 1) % all.len()], "back from {from:?}");
                }
                r.map(|_| to)
            }
            9 => {
                let id = IDS[s.below(3)];
                let want = all.iter().find(|p| get(&mut model, p).id == Some(id)).cloned();
                let r = tree.focus_by_id(id);
                assert_eq!(r, want.is_some(), "focus_by_id {id}");
                want.map(Some)
            }
            10 => {
                let i = s.below(all.len() + 2);
                let r = tree.set_focus_index(i);
                assert_eq!(r, i < all.len(), "set_focus_index {i} of {}", all.len());
                if r { Some(Some(all[i].clone())) } else { if all.is_empty() { Some(None) } else { None } }
            }
            _ => {
                // once around, forward or back
                if all.is_empty() {
                    None
                } else {
                    let forward = s.bool();
                    let mut seen = vec![];
                    for _ in 0..all.len() {
                        let i = if forward { tree.focus_next() } else { tree.focus_previous() }.expect("something can take focus");
                        seen.push(i);
                    }
                    let last = all[*seen.last().unwrap()].clone();
                    let turned: Vec<usize> = (0..all.len()).map(|k| if forward { (seen[0] + k) % all.len() } else { (seen[0] + all.len() - k) % all.len() }).collect();
                    assert_eq!(seen, turned, "once around");
                    Some(Some(last))
                }
            }
        };
        let Some(now) = now else { continue };
        moved = true;
        // exactly that widget is focused
        let mut lit = vec![];
        for p in &places {
            let interactive = get(&mut model, p).interactive;
            if interactive && real(tree.root_mut(), p).is_focused() {
                lit.push(p.clone());
            }
        }
        assert_eq!(lit, now.iter().cloned().collect::<Vec<_>>(), "focused widgets in {}", show(&model));
        settled = now.clone();
        // and keys go there
        if let Some(p) = now {
            let here = addr(real(tree.root_mut(), &p));
            assert_eq!(tree.with_focused(|w| w as *mut dyn Widget<usize> as *mut () as usize), Some(here), "keys go to {:?}, focus is at {p:?} in {}", tree.focus_path().indices(), show(&model));
            let n = get(&mut model, &p);
            log.borrow_mut().clear();
            let message = tree.dispatch_key(KeyCode::Enter);
            let want: Vec<usize> = if n.answers { vec![n.uid] } else { vec![] };
            assert_eq!((message, log.borrow().clone()), (want.first().copied(), want.clone()), "enter at {p:?}");
            assert_eq!(tree.focused_sender_info().id.as_deref(), n.id);
        }
    }
    let _ = moved;
}
