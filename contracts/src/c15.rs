//! C15: markup, against a stack of open tags.
use crate::src::Src;
use rich::ParsedMarkup;
use std::collections::{BTreeMap, HashMap};
use textual::content::Content;
use textual::{Canvas, Input, Matcher, OptionList, Region, Widget};

/// What a tag adds.
#[derive(Clone, PartialEq, Debug, Default)]
struct Look {
    fg: Option<(u8, u8, u8)>,
    bg: Option<(u8, u8, u8)>,
    flags: [bool; 7],
    meta: BTreeMap<String, String>,
}
impl Look {
    fn on(&self, o: &Look) -> Look {
        let mut r = self.clone();
        r.fg = o.fg.or(r.fg);
        r.bg = o.bg.or(r.bg);
        for i in 0..7 {
            r.flags[i] |= o.flags[i];
        }
        r.meta.extend(o.meta.clone());
        r
    }
}
const FLAGS: [(&str, usize); 9] = [("bold", 0), ("dim", 1), ("italic", 2), ("underline", 3), ("strike", 4), ("reverse", 5), ("blink", 6), ("b", 0), ("i", 2)];
const COLORS: [(&str, (u8, u8, u8)); 6] = [("#ff0000", (255, 0, 0)), ("#00FF7f", (0, 255, 127)), ("rgb(1,2,3)", (1, 2, 3)), ("#123456", (0x12, 0x34, 0x56)), ("#abc", (0xaa, 0xbb, 0xcc)), ("rgb(9,8,70)", (9, 8, 70))];

/// The content of an opening tag, what it adds and the names that close it.
fn tag<S: Src>(s: &mut S) -> (String, Look, Vec<String>) {
    let mut look = Look::default();
    let mut names = vec![];
    match s.below(8) {
        0 => {
            let k = ["click", "hover", "x.y"][s.below(3)];
            let v = ["app.quit", "go(1, 'a')", "", "p=q", "bold"][s.below(5)];
            look.meta.insert(format!("@{k}"), v.into());
            names.push(format!("@{k}"));
            (format!("@{k}={v}"), look, names)
        }
        1 => {
            let v = ["https://a.b/c?d=e", "u", "x y"][s.below(3)];
            look.meta.insert("@link".into(), v.into());
            names.push("link".into());
            (if s.bool() { format!("link='{v}'") } else { format!("link={v}") }, look, names)
        }
        _ => {
            let mut words: Vec<String> = vec![];
            let n = 1 + s.below(3);
            for _ in 0..n {
                match s.below(4) {
                    0 => {
                        let (w, c) = COLORS[s.below(6)];
                        look.fg = Some(c);
                        words.push(w.into());
                    }
                    1 => {
                        let (w, c) = COLORS[s.below(6)];
                        look.bg = Some(c);
                        words.push("on".into());
                        words.push(w.into());
                    }
                    _ => {
                        let (w, f) = FLAGS[s.below(9)];
                        look.flags[f] = true;
                        words.push(if s.below(4) == 0 { w.to_uppercase() } else { w.into() });
                    }
                }
            }
            for w in &words {
                names.push(w.to_lowercase());
            }
            names.push(words.join(" ").to_lowercase());
            (words.join(" "), look, names)
        }
    }
}
const PIECES: &[&str] = &["a", "b c", "é", "界", "🙂", "\n", "]", " ", "/", "e\u{301}", "@x=1", "\t", "bold"];

struct Made {
    markup: String,
    text: String,
    /// what every character of the text looks like
    looks: Vec<Look>,
}
fn make<S: Src>(s: &mut S) -> Made {
    let (mut markup, mut text, mut looks) = (String::new(), String::new(), vec![]);
    let mut stack: Vec<(Look, Vec<String>)> = vec![];
    let mut write = |t: &str, stack: &[(Look, Vec<String>)], text: &mut String| {
        let look = stack.iter().fold(Look::default(), |a, e| a.on(&e.0));
        text.push_str(t);
        looks.extend(t.chars().map(|_| look.clone()));
    };
    let n = s.below(14);
    for _ in 0..n {
        match s.below(9) {
            0..=3 => {
                let t = PIECES[s.below(PIECES.len())];
                markup.push_str(t);
                write(t, &stack, &mut text);
            }
            4 => {
                let t = ["[", "]", "\\"][s.below(3)];
                markup.push('\\');
                markup.push_str(t);
                write(t, &stack, &mut text);
            }
            5 | 6 => {
                let (c, look, names) = tag(s);
                markup.push_str(&format!("[{c}]"));
                stack.push((look, names));
            }
            7 => {
                markup.push_str(if s.below(4) == 0 { "[/ ]" } else { "[/]" });
                stack.pop();
            }
            _ => {
                if stack.is_empty() {
                    markup.push_str("[/bold]");
                    continue;
                }
                let names = &stack[s.below(stack.len())].1;
                let name = names[s.below(names.len())].clone();
                let at = stack.iter().rposition(|e| format!(" {} ", e.1.last().unwrap()).contains(&format!(" {name} "))).unwrap();
                markup.push_str(&format!("[/{}]", if s.below(4) == 0 { name.to_uppercase() } else { name.clone() }));
                stack.truncate(at);
            }
        }
    }
    Made { markup, text, looks }
}
fn rich_look(style: &rich::Style, meta: &HashMap<String, String>) -> Look {
    let t = &style.text;
    Look {
        fg: style.fg.as_ref().map(|c| c.to_rgb()),
        bg: style.bg.as_ref().map(|c| c.to_rgb()),
        flags: [t.bold, t.dim, t.italic, t.underline, t.strike, t.reverse, t.blink],
        meta: meta.clone().into_iter().collect(),
    }
}
pub fn c15_parse<S: Src>(s: &mut S) {
    let m = make(s);
    s.note(&|| format!("markup {:?}", m.markup));
    let p = ParsedMarkup::parse(&m.markup).unwrap_or_else(|e| panic!("rejected: {e:?}"));
    assert_eq!(p.text(), m.text, "text");
    assert_eq!((p.len(), p.is_empty()), (m.text.len(), m.text.is_empty()), "length");
    let places: Vec<usize> = m.text.char_indices().map(|c| c.0).collect();
    for (i, &o) in places.iter().enumerate() {
        let want = Look { meta: BTreeMap::new(), ..m.looks[i].clone() };
        assert_eq!(rich_look(&p.style_at(o), &HashMap::new()), want, "style at byte {o}");
        let mut meta = HashMap::new();
        for sp in p.spans_at(o) {
            meta.extend(sp.meta.clone());
        }
        assert_eq!(meta.into_iter().collect::<BTreeMap<_, _>>(), m.looks[i].meta, "actions at byte {o}");
    }
    for sp in p.spans() {
        assert!(sp.start < sp.end && sp.end <= m.text.len() && m.text.is_char_boundary(sp.start) && m.text.is_char_boundary(sp.end), "span {}..{}", sp.start, sp.end);
    }
    assert!(!p.is_plain() || m.looks.iter().all(|l| *l == Look::default()), "plain");
    let mut at = 0;
    for (t, style, meta) in p.segments() {
        assert!(!t.is_empty() && m.text[at..].starts_with(t), "piece {t:?} at byte {at}");
        for (i, &o) in places.iter().enumerate().filter(|(_, o)| (at..at + t.len()).contains(*o)) {
            assert_eq!(rich_look(&style, &meta), m.looks[i], "piece {t:?}, byte {o}");
        }
        at += t.len();
    }
    assert_eq!(at, m.text.len(), "pieces end early");
}
/// The same as rendered: one strip for each line.
pub fn c15_content<S: Src>(s: &mut S) {
    let m = make(s);
    s.note(&|| format!("markup {:?}", m.markup));
    let c = Content::from_markup(&m.markup).unwrap_or_else(|e| panic!("rejected: {e:?}"));
    assert_eq!(c.text(), m.text, "text");
    let lines = c.lines();
    let want: Vec<&str> = m.text.split('\n').collect();
    assert_eq!(c.height(), want.len(), "height");
    assert_eq!(lines.len(), want.len(), "number of lines");
    let mut at = 0;
    for (strip, line) in lines.iter().zip(&want) {
        let got: String = strip.segments().iter().map(|g| g.text()).collect();
        assert_eq!(got, *line, "line");
        for g in strip.segments() {
            for _ in g.text().chars() {
                let st = g.style().cloned().unwrap_or_default();
                let rgb = |c: &tcss::types::RgbaColor| (c.r, c.g, c.b);
                let mut look = m.looks[at].clone();
                look.flags[6] = false;
                let have = Look { fg: st.fg.as_ref().map(rgb), bg: st.bg.as_ref().map(rgb), flags: [st.bold, st.dim, st.italic, st.underline, st.strike, st.reverse, false], meta: g.meta().clone().into_iter().collect() };
                assert_eq!(have, look, "character {at}");
                at += 1;
            }
        }
        at += 1;
    }
}
/// Any text: no panic, and what is accepted comes out in pieces on character boundaries.
pub fn c15_any<S: Src>(s: &mut S) {
    let n = s.below(16);
    let t: String = (0..n).map(|_| ["[", "]", "\\", "/", "a", "界", " ", "bold", "@x=", "link=", "red on blue", "'", "[b]", "[/]"][s.below(14)]).collect();
    s.note(&|| format!("markup {t:?}"));
    if let Ok(p) = ParsedMarkup::parse(&t) {
        for sp in p.spans() {
            assert!(sp.start < sp.end && sp.end <= p.len() && p.text().is_char_boundary(sp.start) && p.text().is_char_boundary(sp.end), "span {}..{}", sp.start, sp.end);
        }
        assert_eq!(p.segments().map(|g| g.0).collect::<String>(), p.text(), "pieces");
    }
}
const ANY: &[&str] = &["[", "]", "\\", "/", "a", "b", "界", " ", "bold", "[/]", "[b]", "\n", "e\u{301}", "A", "_"];
/// Escaping, as the command palette does it, and highlighting leave the text alone.
pub fn c15_escape<S: Src>(s: &mut S) {
    let n = s.below(10);
    let t: String = (0..n).map(|_| ANY[s.below(ANY.len())]).collect();
    let hit = s.bool();
    let query = if hit { ["a", "ab", "[", "\\", "b]", "aa"][s.below(6)] } else { "qqq" };
    let style = match s.below(3) { 0 => None, 1 => Some("bold #ff0000".to_string()), _ => Some(String::new()) };
    s.note(&|| format!("text {t:?} query {query:?} style {style:?}"));
    let m = Matcher::new(query, style.clone(), s.bool());
    let out = m.highlight(&t);
    let p = ParsedMarkup::parse(&out).unwrap_or_else(|e| panic!("{out:?} rejected: {e:?}"));
    assert_eq!(p.text(), t, "through {out:?}");
    if !hit {
        assert!(p.is_plain(), "{out:?} is styled");
        let c = Content::from_markup(&out).unwrap();
        assert_eq!(c.text(), t);
        assert!(c.lines().iter().all(|l| l.segments().iter().all(|g| g.style().is_none_or(|x| x.is_empty()) && g.meta().is_empty())), "styled");
    }
}
/// What a widget shows, blanks aside.
fn shown(w: &dyn Widget<()>) -> String {
    let mut c = Canvas::new(120, 1);
    w.render(&mut c, Region { x: 0, y: 0, width: 120, height: 1 });
    (0..120).map(|i| c.cell_at(i)).filter(|c| !c.continuation && c.symbol.as_str() != " ").map(|c| c.symbol.to_string()).collect()
}
/// Widgets that show given text literally.
pub fn c15_shown<S: Src>(s: &mut S) {
    let n = s.below(9);
    let t: String = (0..n).map(|_| ANY[s.below(ANY.len())]).filter(|x| *x != "\n").collect();
    let want = t.replace(' ', "");
    s.note(&|| format!("text {t:?}"));
    let mut l: OptionList<()> = OptionList::new(vec![t.clone()]);
    let mut seen = String::new();
    l.for_each_child(&mut |c| seen = shown(&*c));
    assert_eq!(seen, want, "option");
    let mut i: Input<()> = Input::new();
    i.set_placeholder(t.clone());
    i.set_focus(s.bool());
    assert_eq!(shown(&i), want, "placeholder");
    i.set_value(t.clone());
    i.set_cursor(s.below(12));
    assert_eq!(shown(&i), want, "input");
}
