//! C12 (matching) and C13 (cascade), observed through computed styles and the style resolver.
use crate::src::Src;
use std::collections::VecDeque;
use tcss::parser::cascade::{compute_style, WidgetMeta, WidgetStates};
use tcss::parser::{parse_stylesheet, Combinator, ComplexSelector, CompoundSelector, Declaration, Rule, RuleItem, Selector, SelectorList, SelectorPart, StyleSheet};
use tcss::types::*;
use textual::{Canvas, Region, Size, Widget};

const TYPES: [&str; 3] = ["A", "B", "Cc"];
const CLASSES: [&str; 3] = ["x", "y-z", "A"];
const IDS: [&str; 2] = ["p", "x"];
const STATES: [&str; 9] = ["focus", "hover", "active", "disabled", "dark", "light", "ansi", "nocolor", "other"];

#[derive(Clone, Copy)]
struct Ctx {
    dark: bool,
    ansi: bool,
    nocolor: bool,
}
fn theme<S: Src>(s: &mut S) -> (Theme, Ctx) {
    let dark = s.bool();
    let name = ["t", "my-ansi-theme", "nocolor", "a-no-color"][s.below(4)];
    s.note(&|| format!("theme {name} dark={dark}"));
    let mut t = Theme::new(name, dark);
    for (r, g) in (0..16).map(|k| (k / 4, k % 4)) {
        t.colors.insert(format!("{}v-{r}{g}", ["", "lighten-", "a-darken-"][r as usize % 3]), RgbaColor::rgb(r, g, 9));
    }
    (t, Ctx { dark, ansi: name.contains("ansi"), nocolor: name.contains("nocolor") || name.contains("no-color") })
}
fn meta<S: Src>(s: &mut S) -> WidgetMeta {
    let mut m = WidgetMeta { type_name: TYPES[s.below(3)], ..Default::default() };
    if s.bool() {
        m.type_names = vec![m.type_name];
        if s.below(3) == 0 {
            m.type_names.push(TYPES[s.below(3)]);
        }
    }
    if s.below(3) == 0 {
        m.id = Some(IDS[s.below(2)].to_string());
    }
    for c in CLASSES {
        if s.below(3) == 0 {
            m.classes.push(c.to_string());
        }
    }
    if s.below(3) == 0 {
        m.states = WidgetStates::from_bits_truncate(s.range(0, 15) as u16);
    }
    m
}
fn simple<S: Src>(s: &mut S) -> Selector {
    match s.below(12) {
        0..=4 => Selector::Type(TYPES[s.below(3)].to_string()),
        5 | 6 => Selector::Class(CLASSES[s.below(3)].to_string()),
        7 => Selector::Id(IDS[s.below(2)].to_string()),
        8 => Selector::PseudoClass(STATES[s.below(9)].to_string()),
        9 => Selector::Attribute("a".into(), "b".into()),
        _ => Selector::Universal,
    }
}
fn compound<S: Src>(s: &mut S) -> CompoundSelector {
    // at most one type or universal selector, first, so that the compound can also be written as text
    let mut v = vec![simple(s)];
    let more = if s.below(30) == 0 { 9 + s.below(30) } else { s.below(6).saturating_sub(2) };
    for _ in 0..more {
        let x = simple(s);
        if !matches!(x, Selector::Type(_) | Selector::Universal) {
            v.push(x);
        }
    }
    CompoundSelector::new(v)
}
fn complex<S: Src>(s: &mut S) -> ComplexSelector {
    let n = 1 + s.below(5);
    let mut v = vec![];
    for i in 0..n {
        let c = compound(s);
        let k = if i + 1 == n {
            Combinator::None
        } else {
            match s.below(9) {
                0..=3 => Combinator::Child,
                8 if s.below(4) == 0 => [Combinator::AdjacentSibling, Combinator::GeneralSibling][s.below(2)],
                _ => Combinator::Descendant,
            }
        };
        v.push(SelectorPart::new(c, k));
    }
    ComplexSelector::new(v)
}
fn simple_text(x: &Selector) -> String {
    match x {
        Selector::Type(t) => t.clone(),
        Selector::Class(c) => format!(".{c}"),
        Selector::Id(i) => format!("#{i}"),
        Selector::Universal => "*".into(),
        Selector::PseudoClass(p) => format!(":{p}"),
        Selector::Parent => "&".into(),
        Selector::Attribute(a, b) => format!("[{a}={b}]"),
    }
}
fn compound_text(c: &CompoundSelector) -> String {
    c.selectors.iter().map(simple_text).collect()
}
fn complex_text<S: Src>(s: &mut S, c: &ComplexSelector) -> String {
    let mut o = String::new();
    for p in &c.parts {
        o.push_str(&compound_text(&p.compound));
        o.push_str(match p.combinator {
            Combinator::None => "",
            Combinator::Descendant => [" ", "  ", "\n", " /* c */ "][s.below(4)],
            Combinator::Child => [" > ", ">", "> ", "\n>"][s.below(4)],
            Combinator::AdjacentSibling => [" + ", "+"][s.below(2)],
            Combinator::GeneralSibling => [" ~ ", "~"][s.below(2)],
        });
    }
    o
}

// ---------------------------------------------------------------- the property
fn sel_ok(m: &WidgetMeta, x: &Selector, c: Ctx) -> bool {
    match x {
        Selector::Type(t) => {
            if m.type_names.is_empty() {
                m.type_name == t
            } else {
                m.type_names.iter().any(|n| *n == t.as_str())
            }
        }
        Selector::Class(k) => m.classes.iter().any(|n| n == k),
        Selector::Id(i) => m.id.as_deref() == Some(i.as_str()),
        Selector::Universal => true,
        Selector::PseudoClass(p) => match p.as_str() {
            "focus" => m.states.bits() & 1 != 0,
            "hover" => m.states.bits() & 2 != 0,
            "active" => m.states.bits() & 4 != 0,
            "disabled" => m.states.bits() & 8 != 0,
            "dark" => c.dark,
            "light" => !c.dark,
            "ansi" => c.ansi,
            "nocolor" => c.nocolor,
            _ => false,
        },
        Selector::Parent | Selector::Attribute(..) => false,
    }
}
fn comp_ok(m: &WidgetMeta, k: &CompoundSelector, c: Ctx) -> bool {
    k.selectors.iter().all(|x| sel_ok(m, x, c))
}
/// The first `n` parts can be assigned to ancestors starting at or (for a descendant) after `from`.
fn assignable(parts: &[SelectorPart], ancestors: &[WidgetMeta], c: Ctx) -> bool {
    let Some((p, rest)) = parts.split_last() else { return true };
    let hit = |i: usize| i < ancestors.len() && comp_ok(&ancestors[i], &p.compound, c) && assignable(rest, &ancestors[i + 1..], c);
    match p.combinator {
        Combinator::Child => hit(0),
        Combinator::Descendant | Combinator::None => (0..ancestors.len()).any(hit),
        Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
    }
}
fn complex_ok(m: &WidgetMeta, x: &ComplexSelector, ancestors: &[WidgetMeta], c: Ctx) -> bool {
    match x.parts.split_last() {
        None => false,
        Some((p, rest)) => comp_ok(m, &p.compound, c) && assignable(rest, ancestors, c),
    }
}
fn spec_of(x: &ComplexSelector) -> (u32, u32, u32) {
    let mut r = (0, 0, 0);
    for p in &x.parts {
        for q in &p.compound.selectors {
            match q {
                Selector::Id(_) => r.0 += 1,
                Selector::Class(_) | Selector::PseudoClass(_) | Selector::Attribute(..) => r.1 += 1,
                Selector::Type(_) => r.2 += 1,
                _ => {}
            }
        }
    }
    r
}

fn path<S: Src>(s: &mut S) -> Vec<WidgetMeta> {
    let n = s.below(7);
    (0..n).map(|_| meta(s)).collect()
}
fn show_meta(m: &WidgetMeta) -> String {
    format!("{}{:?}#{:?}.{:?}:{:?}", m.type_name, m.type_names, m.id, m.classes, m.states)
}
fn rule(sel: Vec<ComplexSelector>, d: Vec<Declaration>) -> Rule {
    Rule { selectors: SelectorList::new(sel), items: d.into_iter().map(RuleItem::Declaration).collect() }
}

pub fn c12_matching<S: Src>(s: &mut S) {
    let (t, c) = theme(s);
    let (m, anc) = (meta(s), path(s));
    let x = complex(s);
    s.note(&|| format!("widget {} ancestors (parent first) {:?}", show_meta(&m), anc.iter().map(show_meta).collect::<Vec<_>>()));
    s.note(&|| format!("selector {:?}", x.parts.iter().map(|p| format!("{} {:?}", compound_text(&p.compound), p.combinator)).collect::<Vec<_>>()));
    let want = complex_ok(&m, &x, &anc, c);
    let sheet = StyleSheet { rules: vec![rule(vec![x], vec![Declaration::Width(Scalar::cells(7.0))])] };
    let got = compute_style(&m, &anc, &sheet, &t).width.is_some();
    assert!(got == want, "selector matched: {got}, by its meaning: {want}");
}
/// A matching selector is built from the path, then perturbed: chains that nearly match.
pub fn c12_chains<S: Src>(s: &mut S) {
    let (t, c) = theme(s);
    let names = ["A", "B"];
    let n = 1 + s.below(8);
    let anc: Vec<WidgetMeta> = (0..n).map(|_| WidgetMeta { type_name: names[s.below(2)], ..Default::default() }).collect();
    let m = WidgetMeta { type_name: "Cc", ..Default::default() };
    let k = 1 + s.below(5);
    let mut parts: Vec<SelectorPart> = (0..k)
        .map(|_| {
            let name = names[s.below(2)];
            let comb = if s.bool() { Combinator::Child } else { Combinator::Descendant };
            SelectorPart::new(CompoundSelector::new(vec![Selector::Type(name.into())]), comb)
        })
        .collect();
    parts.push(SelectorPart::new(CompoundSelector::new(vec![Selector::Type("Cc".into())]), Combinator::None));
    let x = ComplexSelector::new(parts);
    s.note(&|| format!("ancestors (parent first) {:?}", anc.iter().map(|a| a.type_name).collect::<Vec<_>>()));
    s.note(&|| format!("selector {:?}", x.parts.iter().map(|p| format!("{} {:?}", compound_text(&p.compound), p.combinator)).collect::<Vec<_>>()));
    let want = complex_ok(&m, &x, &anc, c);
    let sheet = StyleSheet { rules: vec![rule(vec![x], vec![Declaration::Width(Scalar::cells(7.0))])] };
    let got = compute_style(&m, &anc, &sheet, &t).width.is_some();
    assert!(got == want, "selector matched: {got}, by its meaning: {want}");
}

/// A widget that reports given metadata and has at most one child of its own.
struct Node {
    meta: WidgetMeta,
    style: ComputedStyle,
    dirty: bool,
    kids: Vec<Node>,
}
impl Widget<()> for Node {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size {
        Size { width: 1, height: 1 }
    }
    fn get_meta(&self) -> WidgetMeta {
        self.meta.clone()
    }
    fn set_style(&mut self, st: ComputedStyle) {
        self.style = st;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn is_dirty(&self) -> bool {
        self.dirty
    }
    fn mark_dirty(&mut self) {
        self.dirty = true;
    }
    fn mark_clean(&mut self) {
        self.dirty = false;
    }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<()>)) {
        for k in &mut self.kids {
            f(k);
        }
    }
}
fn build(metas: &[WidgetMeta], extra: &[WidgetMeta]) -> Node {
    // metas: root first; extra: siblings placed before the child at each level
    let mut kids: Vec<Node> = vec![];
    if let Some((_, rest)) = metas.split_first() {
        if !rest.is_empty() {
            if let Some(e) = extra.first() {
                kids.push(Node { meta: e.clone(), style: ComputedStyle::default(), dirty: false, kids: vec![] });
            }
            kids.push(build(rest, extra.get(1..).unwrap_or(&[])));
        }
    }
    Node { meta: metas[0].clone(), style: ComputedStyle::default(), dirty: false, kids }
}
fn check_tree(n: &Node, anc: &mut VecDeque<WidgetMeta>, x: &ComplexSelector, c: Ctx) {
    let a: Vec<WidgetMeta> = anc.iter().cloned().collect();
    let want = complex_ok(&n.meta, x, &a, c);
    let got = n.style.width.is_some();
    assert!(got == want, "resolved tree: {} below {:?}: matched {got}, by its meaning {want}", show_meta(&n.meta), a.iter().map(show_meta).collect::<Vec<_>>());
    anc.push_front(n.meta.clone());
    for k in &n.kids {
        check_tree(k, anc, x, c);
    }
    anc.pop_front();
}
/// The selector written as text, parsed, and applied to a whole widget tree by the style resolver; then one
/// widget's state changes and only the dirty part is resolved again.
pub fn c12_tree<S: Src>(s: &mut S) {
    let (t, c) = theme(s);
    let mut metas = path(s);
    metas.push(meta(s));
    let extra = path(s);
    let x = complex(s);
    let text = format!("{} {{ width: 7; }}", complex_text(s, &x));
    s.note(&|| format!("tree root first {:?}", metas.iter().map(show_meta).collect::<Vec<_>>()));
    s.note(&|| format!("stylesheet {text}"));
    let sheet = match parse_stylesheet(&text) {
        Ok(x) => x,
        Err(e) => panic!("well-formed stylesheet rejected: {e:?}"),
    };
    let mut root = build(&metas, &extra);
    textual::style_resolver::resolve_styles(&mut root, &sheet, &t, &mut VecDeque::new());
    check_tree(&root, &mut VecDeque::new(), &x, c);
    let depth = s.below(metas.len());
    let bits = WidgetStates::from_bits_truncate(s.range(0, 15) as u16);
    {
        let mut n = &mut root;
        for _ in 0..depth {
            n = n.kids.last_mut().unwrap();
        }
        n.meta.states = bits;
        n.dirty = true;
    }
    let inh = textual::style_resolver::InheritedContext::from_theme(&t);
    textual::style_resolver::resolve_dirty_styles(&mut root, &sheet, &t, &mut VecDeque::new(), false, &inh);
    check_tree(&root, &mut VecDeque::new(), &x, c);
}
/// A nested rule matches like its selector written out in full.
pub fn c12_nested<S: Src>(s: &mut S) {
    let (t, c) = theme(s);
    let (m, anc) = (meta(s), path(s));
    let (p, q) = (complex(s), complex(s));
    let amp = s.below(3);
    let mut full = p.parts.clone();
    let mut inner = complex_text(s, &q);
    let starts_plain = matches!(q.parts[0].compound.selectors[0], Selector::Type(_) | Selector::Universal);
    let l = full.len() - 1;
    match amp {
        0 if !starts_plain => {
            // &.x : the first part of the inner selector continues the parent
            inner = format!("&{inner}");
            full[l].compound.selectors.extend(q.parts[0].compound.selectors.iter().cloned());
            full[l].combinator = q.parts[0].combinator;
            full.extend(q.parts[1..].iter().cloned());
        }
        1 => {
            inner = format!("& > {inner}");
            full[l].combinator = Combinator::Child;
            full.extend(q.parts.iter().cloned());
        }
        _ => {
            full[l].combinator = Combinator::Descendant;
            full.extend(q.parts.iter().cloned());
        }
    }
    let text = format!("{} {{ height: 3; {inner} {{ width: 7; }} }}", complex_text(s, &p));
    s.note(&|| format!("widget {} ancestors (parent first) {:?}", show_meta(&m), anc.iter().map(show_meta).collect::<Vec<_>>()));
    s.note(&|| format!("stylesheet {text}"));
    let sheet = parse_stylesheet(&text).unwrap_or_else(|e| panic!("well-formed stylesheet rejected: {e:?}"));
    let st = compute_style(&m, &anc, &sheet, &t);
    let want = (complex_ok(&m, &p, &anc, c), complex_ok(&m, &ComplexSelector::new(full), &anc, c));
    let got = (st.height.is_some(), st.width.is_some());
    assert!(got == want, "outer and nested rule matched {got:?}, by their meaning {want:?}");
}

/// A tree of nested rules with selector lists at every level, among other rules, against its meaning: each rule's
/// declarations apply under every combination of the selectors above it.
pub fn c12_lists<S: Src>(s: &mut S) {
    let (t, c) = theme(s);
    let (m, anc) = (meta(s), path(s));
    let mut n = 0;
    let mut wants: Vec<Vec<ComplexSelector>> = vec![];
    let mut text = String::new();
    for _ in 0..1 + s.below(3) {
        nest(s, &mut text, None, 0, &mut n, &mut wants);
    }
    s.note(&|| format!("widget {} ancestors (parent first) {:?}", show_meta(&m), anc.iter().map(show_meta).collect::<Vec<_>>()));
    s.note(&|| format!("stylesheet {text}"));
    let sheet = parse_stylesheet(&text).unwrap_or_else(|e| panic!("well-formed stylesheet rejected: {e:?}"));
    let st = compute_style(&m, &anc, &sheet, &t);
    let got: Vec<bool> = got_slots(&st);
    for (i, w) in wants.iter().enumerate() {
        let want = w.iter().any(|x| complex_ok(&m, x, &anc, c));
        assert!(got[i] == want, "rule {i} ({}): matched {}, by its meaning {want}", SLOTS[i], got[i]);
    }
}
const SLOTS: [&str; 9] = ["width", "height", "min-width", "max-width", "min-height", "max-height", "margin-top", "margin-right", "margin-left"];
fn got_slots(st: &ComputedStyle) -> Vec<bool> {
    let z = |x: &Scalar| x.value == 7.0;
    let o = |x: &Option<Scalar>| x.as_ref().is_some_and(z);
    vec![o(&st.width), o(&st.height), o(&st.min_width), o(&st.max_width), o(&st.min_height), o(&st.max_height), z(&st.margin.top), z(&st.margin.right), z(&st.margin.left)]
}
fn nest<S: Src>(s: &mut S, out: &mut String, above: Option<&[ComplexSelector]>, depth: usize, n: &mut usize, wants: &mut Vec<Vec<ComplexSelector>>) {
    if *n == SLOTS.len() {
        return;
    }
    let me = *n;
    *n += 1;
    let own: Vec<ComplexSelector> = (0..1 + s.below(3)).map(|_| if s.below(3) == 0 { complex(s) } else { ComplexSelector::new(vec![SelectorPart::new(compound(s), Combinator::None)]) }).collect();
    let (mut full, mut texts): (Vec<Vec<ComplexSelector>>, Vec<String>) = (vec![vec![]; above.map_or(1, |a| a.len())], vec![]);
    for q in &own {
        let mut inner = complex_text(s, q);
        let Some(above) = above else {
            full[0].push(q.clone());
            texts.push(inner);
            continue;
        };
        let how = s.below(3);
        let plain = matches!(q.parts[0].compound.selectors[0], Selector::Type(_) | Selector::Universal);
        match how {
            0 if !plain => inner = format!("&{inner}"),
            1 => inner = format!("& > {inner}"),
            _ => {}
        }
        for (k, p) in above.iter().enumerate() {
            let mut parts = p.parts.clone();
            let l = parts.len() - 1;
            match how {
                0 if !plain => {
                    parts[l].compound.selectors.extend(q.parts[0].compound.selectors.iter().cloned());
                    parts[l].combinator = q.parts[0].combinator;
                    parts.extend(q.parts[1..].iter().cloned());
                }
                1 => {
                    parts[l].combinator = Combinator::Child;
                    parts.extend(q.parts.iter().cloned());
                }
                _ => {
                    parts[l].combinator = Combinator::Descendant;
                    parts.extend(q.parts.iter().cloned());
                }
            }
            full[k].push(ComplexSelector::new(parts));
        }
        texts.push(inner);
    }
    let full: Vec<ComplexSelector> = full.into_iter().flatten().collect();
    wants.push(full.clone());
    out.push_str(&format!("{} {{ ", texts.join(", ")));
    let early = s.bool();
    if early {
        out.push_str(&format!("{}: 7; ", SLOTS[me]));
    }
    if depth < 3 {
        for _ in 0..s.below(3) {
            nest(s, out, Some(&full), depth + 1, n, wants);
        }
    }
    if !early {
        out.push_str(&format!("{}: 7; ", SLOTS[me]));
    }
    out.push_str("}\n");
}

// ---------------------------------------------------------------- C13
fn color<S: Src>(s: &mut S) -> RgbaColor {
    let c = RgbaColor { a: if s.below(4) == 0 { 0.5 } else { 1.0 }, ..RgbaColor::rgb(s.below(4) as u8, s.below(4) as u8, 9) };
    if s.below(16) == 0 { RgbaColor::white() } else { c }
}
/// The colour as it may stand in a stylesheet: itself, or the variable of the theme that means it (one the theme does not know means white).
fn dressed<S: Src>(s: &mut S, c: &RgbaColor) -> RgbaColor {
    if s.below(3) > 0 {
        return c.clone();
    }
    let name = if *c == RgbaColor::white() { "nowhere".to_string() } else { format!("{}v-{}{}", ["", "lighten-", "a-darken-"][c.r as usize % 3], c.r, c.g) };
    RgbaColor { a: c.a, theme_var: Some(name), ..RgbaColor::rgb(99, 99, 99) }
}
fn dressed_edge<S: Src>(s: &mut S, e: &BorderEdge) -> BorderEdge {
    BorderEdge { color: e.color.as_ref().map(|c| dressed(s, c)), ..e.clone() }
}
fn scalar<S: Src>(s: &mut S) -> Scalar {
    Scalar { value: s.range(1, 9) as f64, unit: [Unit::Cells, Unit::Percent, Unit::Fraction][s.below(3)] }
}
fn edge<S: Src>(s: &mut S) -> BorderEdge {
    BorderEdge { kind: [BorderKind::Solid, BorderKind::Heavy, BorderKind::None][s.below(3)], color: if s.bool() { Some(color(s)) } else { None } }
}
fn halign<S: Src>(s: &mut S) -> AlignHorizontal {
    [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right][s.below(3)]
}
fn valign<S: Src>(s: &mut S) -> AlignVertical {
    [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom][s.below(3)]
}
fn tstyle<S: Src>(s: &mut S) -> TextStyle {
    TextStyle { bold: s.bool(), italic: s.bool(), reverse: s.bool(), ..Default::default() }
}
type Slots = Vec<(&'static str, String)>;
fn d<T: std::fmt::Debug>(n: &'static str, v: &T) -> (&'static str, String) {
    (n, format!("{v:?}"))
}
/// Every observable slot of a computed style.
fn slots(st: &ComputedStyle) -> Slots {
    let mut v = vec![
        d("color", &st.color), d("background", &st.background), d("auto_color", &st.auto_color), d("tint", &st.tint), d("background_tint", &st.background_tint),
        d("width", &st.width), d("height", &st.height), d("min_width", &st.min_width), d("max_width", &st.max_width), d("min_height", &st.min_height), d("max_height", &st.max_height),
        d("margin.top", &st.margin.top), d("margin.right", &st.margin.right), d("margin.bottom", &st.margin.bottom), d("margin.left", &st.margin.left),
        d("padding.top", &st.padding.top), d("padding.right", &st.padding.right), d("padding.bottom", &st.padding.bottom), d("padding.left", &st.padding.left),
        d("border.top", &st.border.top), d("border.right", &st.border.right), d("border.bottom", &st.border.bottom), d("border.left", &st.border.left),
        d("outline.top", &st.outline.top), d("outline.right", &st.outline.right), d("outline.bottom", &st.outline.bottom), d("outline.left", &st.outline.left),
        d("box_sizing", &st.box_sizing), d("btalign", &st.border_title_align), d("bsalign", &st.border_subtitle_align),
        d("btcolor", &st.border_title_color), d("bscolor", &st.border_subtitle_color), d("btbg", &st.border_title_background), d("bsbg", &st.border_subtitle_background),
        d("text_align", &st.text_align), d("text_opacity", &st.text_opacity), d("text_overflow", &st.text_overflow), d("text_wrap", &st.text_wrap), d("line_pad", &st.line_pad),
        d("cah", &st.content_align_horizontal), d("cav", &st.content_align_vertical), d("ah", &st.align_horizontal), d("av", &st.align_vertical),
        d("display", &st.display), d("visibility", &st.visibility), d("visibility_set", &st.visibility_set), d("opacity", &st.opacity), d("layout", &st.layout), d("position", &st.position), d("dock", &st.dock),
        d("layers", &st.layers), d("layer", &st.layer), d("grid.columns", &st.grid.columns), d("grid.rows", &st.grid.rows), d("grid.cw", &st.grid.column_widths), d("grid.rh", &st.grid.row_heights), d("grid.gutter", &st.grid.gutter),
        d("colspan", &st.grid_placement.column_span), d("rowspan", &st.grid_placement.row_span), d("ox", &st.overflow_x), d("oy", &st.overflow_y),
        d("hatch", &st.hatch), d("keyline", &st.keyline), d("offx", &st.offset_x), d("offy", &st.offset_y), d("inherited", &st.inherited_background),
    ];
    let b = &st.scrollbar;
    v.extend([
        d("sb.color", &b.color), d("sb.color_hover", &b.color_hover), d("sb.color_active", &b.color_active), d("sb.background", &b.background), d("sb.background_hover", &b.background_hover), d("sb.background_active", &b.background_active),
        d("sb.corner", &b.corner_color), d("sb.size.h", &b.size.horizontal), d("sb.size.v", &b.size.vertical), d("sb.gutter", &b.gutter), d("sb.visibility", &b.visibility),
    ]);
    let l = &st.link;
    v.extend([d("link.color", &l.color), d("link.background", &l.background), d("link.color_hover", &l.color_hover), d("link.background_hover", &l.background_hover), d("link.style", &l.style), d("link.style_hover", &l.style_hover)]);
    v
}
/// A declaration and exactly what it sets.
fn decl<S: Src>(s: &mut S, kinds: usize) -> (Declaration, Slots) {
    use Declaration as D;
    let k = s.below(kinds);
    macro_rules! col { ($v:ident, $n:literal) => {{ let c = color(s); (D::$v(dressed(s, &c)), vec![d($n, &Some(c))]) }}; }
    macro_rules! sca { ($v:ident, $n:literal) => {{ let c = scalar(s); (D::$v(c), vec![d($n, &Some(c))]) }}; }
    macro_rules! raw { ($v:ident, $n:literal, $e:expr) => {{ let c = $e; (D::$v(c.clone()), vec![d($n, &c)]) }}; }
    match k {
        0 => { let c = color(s); (D::Color(dressed(s, &c)), vec![d("color", &Some(c)), d("auto_color", &false)]) }
        1 => col!(Background, "background"),
        2 => sca!(Width, "width"),
        3 => sca!(Height, "height"),
        4 => { let x = Spacing { top: scalar(s), right: scalar(s), bottom: scalar(s), left: scalar(s) }; (D::Margin(x), vec![d("margin.top", &x.top), d("margin.right", &x.right), d("margin.bottom", &x.bottom), d("margin.left", &x.left)]) }
        5 => raw!(MarginTop, "margin.top", scalar(s)),
        6 => raw!(MarginRight, "margin.right", scalar(s)),
        7 => raw!(MarginBottom, "margin.bottom", scalar(s)),
        8 => raw!(MarginLeft, "margin.left", scalar(s)),
        9 => { let x = edge(s); (D::Border(dressed_edge(s, &x)), ["border.top", "border.right", "border.bottom", "border.left"].iter().map(|n| (*n, format!("{x:?}"))).collect()) }
        10 => { let x = edge(s); (D::BorderTop(dressed_edge(s, &x)), vec![d("border.top", &x)]) },
        11 => { let x = edge(s); (D::BorderRight(dressed_edge(s, &x)), vec![d("border.right", &x)]) },
        12 => { let x = edge(s); (D::BorderBottom(dressed_edge(s, &x)), vec![d("border.bottom", &x)]) },
        13 => { let x = edge(s); (D::BorderLeft(dressed_edge(s, &x)), vec![d("border.left", &x)]) },
        14 => col!(Tint, "tint"),
        15 => col!(BackgroundTint, "background_tint"),
        16 => sca!(MinWidth, "min_width"),
        17 => sca!(MaxWidth, "max_width"),
        18 => sca!(MinHeight, "min_height"),
        19 => sca!(MaxHeight, "max_height"),
        20 => { let x = Spacing { top: scalar(s), right: scalar(s), bottom: scalar(s), left: scalar(s) }; (D::Padding(x), vec![d("padding.top", &x.top), d("padding.right", &x.right), d("padding.bottom", &x.bottom), d("padding.left", &x.left)]) }
        21 => raw!(PaddingTop, "padding.top", scalar(s)),
        22 => raw!(PaddingRight, "padding.right", scalar(s)),
        23 => raw!(PaddingBottom, "padding.bottom", scalar(s)),
        24 => raw!(PaddingLeft, "padding.left", scalar(s)),
        25 => col!(ScrollbarColor, "sb.color"),
        26 => col!(ScrollbarColorHover, "sb.color_hover"),
        27 => col!(ScrollbarColorActive, "sb.color_active"),
        28 => col!(ScrollbarBackground, "sb.background"),
        29 => col!(ScrollbarBackgroundHover, "sb.background_hover"),
        30 => col!(ScrollbarBackgroundActive, "sb.background_active"),
        31 => col!(ScrollbarCornerColor, "sb.corner"),
        32 => { let (h, v) = (s.range(0, 4) as u16, s.range(0, 4) as u16); (D::ScrollbarSize(ScrollbarSize { horizontal: h, vertical: v }), vec![d("sb.size.h", &h), d("sb.size.v", &v)]) }
        33 => raw!(ScrollbarSizeHorizontal, "sb.size.h", s.range(0, 4) as u16),
        34 => raw!(ScrollbarSizeVertical, "sb.size.v", s.range(0, 4) as u16),
        35 => raw!(BoxSizing, "box_sizing", [BoxSizing::BorderBox, BoxSizing::ContentBox][s.below(2)]),
        36 => raw!(Display, "display", [Display::None, Display::Block][s.below(2)]),
        37 => { let v = [Visibility::Visible, Visibility::Hidden][s.below(2)]; (D::Visibility(v), vec![d("visibility", &v), d("visibility_set", &true)]) }
        38 => raw!(Opacity, "opacity", s.below(4) as f64 / 4.0),
        39 => { let o = [Overflow::Hidden, Overflow::Auto, Overflow::Scroll]; let (x, y) = (o[s.below(3)], o[s.below(3)]); (D::Overflow(x, y), vec![d("ox", &x), d("oy", &y)]) }
        40 => raw!(OverflowX, "ox", [Overflow::Hidden, Overflow::Auto, Overflow::Scroll][s.below(3)]),
        41 => raw!(OverflowY, "oy", [Overflow::Hidden, Overflow::Auto, Overflow::Scroll][s.below(3)]),
        42 => raw!(Layout, "layout", [Layout::Grid, Layout::Vertical, Layout::Horizontal][s.below(3)]),
        43 => raw!(Position, "position", [Position::Relative, Position::Absolute][s.below(2)]),
        44 => { let x = [Dock::Top, Dock::Left, Dock::Right, Dock::Bottom][s.below(4)]; (D::Dock(x), vec![d("dock", &Some(x))]) }
        45 => { let x: Vec<String> = (0..s.below(3)).map(|i| format!("l{i}")).collect(); (D::Layers(x.clone()), vec![d("layers", &Some(x))]) }
        46 => { let x = format!("l{}", s.below(3)); (D::Layer(x.clone()), vec![d("layer", &Some(x))]) }
        47 => { let (a, b) = (s.range(1, 5) as u16, if s.bool() { Some(s.range(1, 5) as u16) } else { None }); (D::GridSize(a, b), vec![d("grid.columns", &Some(a)), d("grid.rows", &b)]) }
        48 => raw!(GridColumns, "grid.cw", (0..s.below(3)).map(|_| scalar(s)).collect::<Vec<_>>()),
        49 => raw!(GridRows, "grid.rh", (0..s.below(3)).map(|_| scalar(s)).collect::<Vec<_>>()),
        50 => { let (a, b) = (scalar(s), if s.bool() { Some(scalar(s)) } else { None }); (D::GridGutter(a, b), vec![d("grid.gutter", &(a, b.unwrap_or(a)))]) }
        51 => raw!(ColumnSpan, "colspan", s.range(1, 5) as u16),
        52 => raw!(RowSpan, "rowspan", s.range(1, 5) as u16),
        53 => col!(LinkColor, "link.color"),
        54 => col!(LinkColorHover, "link.color_hover"),
        55 => col!(LinkBackground, "link.background"),
        56 => col!(LinkBackgroundHover, "link.background_hover"),
        57 => raw!(LinkStyle, "link.style", tstyle(s)),
        58 => raw!(LinkStyleHover, "link.style_hover", tstyle(s)),
        59 => raw!(TextAlign, "text_align", [TextAlign::Left, TextAlign::Center, TextAlign::Right][s.below(3)]),
        60 => raw!(LinePad, "line_pad", s.range(0, 4) as u16),
        61 => raw!(TextOpacity, "text_opacity", s.below(4) as f64 / 4.0),
        62 => raw!(ContentAlignHorizontal, "cah", halign(s)),
        63 => raw!(ContentAlignVertical, "cav", valign(s)),
        64 => { let (h, v) = (halign(s), valign(s)); (D::ContentAlign(h, v), vec![d("cah", &h), d("cav", &v)]) }
        65 => raw!(AlignHorizontal, "ah", halign(s)),
        66 => raw!(AlignVertical, "av", valign(s)),
        67 => { let (h, v) = (halign(s), valign(s)); (D::Align(h, v), vec![d("ah", &h), d("av", &v)]) }
        68 => raw!(BorderTitleAlign, "btalign", halign(s)),
        69 => raw!(BorderSubtitleAlign, "bsalign", halign(s)),
        70 => col!(BorderTitleColor, "btcolor"),
        71 => col!(BorderSubtitleColor, "bscolor"),
        72 => col!(BorderTitleBackground, "btbg"),
        73 => col!(BorderSubtitleBackground, "bsbg"),
        74 => { let x = edge(s); (D::Outline(dressed_edge(s, &x)), ["outline.top", "outline.right", "outline.bottom", "outline.left"].iter().map(|n| (*n, format!("{x:?}"))).collect()) }
        75 => { let x = edge(s); (D::OutlineTop(dressed_edge(s, &x)), vec![d("outline.top", &x)]) },
        76 => { let x = edge(s); (D::OutlineRight(dressed_edge(s, &x)), vec![d("outline.right", &x)]) },
        77 => { let x = edge(s); (D::OutlineBottom(dressed_edge(s, &x)), vec![d("outline.bottom", &x)]) },
        78 => { let x = edge(s); (D::OutlineLeft(dressed_edge(s, &x)), vec![d("outline.left", &x)]) },
        79 => { let c = color(s); let x = Hatch::new(HatchPattern::Cross, c.clone()); (D::Hatch(Hatch { color: dressed(s, &c), ..x.clone() }), vec![d("hatch", &Some(x))]) }
        80 => { let c = color(s); let x = Keyline::new([KeylineStyle::Thin, KeylineStyle::Heavy][s.below(2)], c.clone()); (D::Keyline(Keyline { color: dressed(s, &c), ..x.clone() }), vec![d("keyline", &x)]) },
        81 => { let (x, y) = (scalar(s), scalar(s)); (D::Offset(x, y), vec![d("offx", &Some(x)), d("offy", &Some(y))]) }
        82 => sca!(OffsetX, "offx"),
        83 => sca!(OffsetY, "offy"),
        84 => raw!(TextOverflow, "text_overflow", [TextOverflow::Clip, TextOverflow::Ellipsis][s.below(2)]),
        85 => raw!(TextWrap, "text_wrap", [TextWrap::Wrap, TextWrap::NoWrap][s.below(2)]),
        86 => (D::Unknown("u".into()), vec![]),
        87 => raw!(ScrollbarGutter, "sb.gutter", [ScrollbarGutter::Auto, ScrollbarGutter::Stable][s.below(2)]),
        _ => raw!(ScrollbarVisibility, "sb.visibility", [ScrollbarVisibility::Visible, ScrollbarVisibility::Hidden][s.below(2)]),
    }
}
const KINDS: usize = 89;

fn cascade<S: Src>(s: &mut S, kinds: usize, depth: bool) {
    let (t, c) = theme(s);
    let m = meta(s);
    let anc = if depth { path(s) } else { vec![] };
    let n = 1 + s.below(6);
    let mut rules = vec![];
    let mut matched: Vec<((u32, u32, u32), usize, Vec<Slots>)> = vec![];
    for i in 0..n {
        let sels: Vec<ComplexSelector> = (0..1 + s.below(3))
            .map(|_| if depth { complex(s) } else { ComplexSelector::new(vec![SelectorPart::new(compound(s), Combinator::None)]) })
            .collect();
        let ds: Vec<(Declaration, Slots)> = (0..1 + s.below(3)).map(|_| decl(s, kinds)).collect();
        if let Some(best) = sels.iter().filter(|x| complex_ok(&m, x, &anc, c)).map(spec_of).max() {
            matched.push((best, i, ds.iter().map(|d| d.1.clone()).collect()));
        }
        s.note(&|| format!("rule {i}: {:?} {{ {:?} }}", sels.iter().map(|x| x.parts.iter().map(|p| format!("{} {:?}", compound_text(&p.compound), p.combinator)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>(), ds.iter().map(|d| &d.0).collect::<Vec<_>>()));
        rules.push(rule(sels, ds.into_iter().map(|d| d.0).collect()));
    }
    s.note(&|| format!("widget {} ancestors (parent first) {:?}", show_meta(&m), anc.iter().map(show_meta).collect::<Vec<_>>()));
    let got = slots(&compute_style(&m, &anc, &StyleSheet { rules }, &t));
    let mut want = slots(&ComputedStyle::default());
    // the winner per slot: most specific rule, then last rule, then last declaration of the rule
    for w in &mut want {
        let mut best: Option<((u32, u32, u32), usize, usize)> = None;
        for (spec, i, ds) in &matched {
            for (j, d) in ds.iter().enumerate() {
                if let Some(v) = d.iter().find(|v| v.0 == w.0) {
                    let key = (*spec, *i, j);
                    if best.is_none_or(|b| key >= b) {
                        best = Some(key);
                        w.1 = v.1.clone();
                    }
                }
            }
        }
    }
    for (g, w) in got.iter().zip(&want) {
        assert!(g == w, "{}: applied {}, the winning declaration says {}", g.0, g.1, w.1);
    }
}
pub fn c13_cascade<S: Src>(s: &mut S) {
    cascade(s, 4, true)
}
pub fn c13_ties<S: Src>(s: &mut S) {
    cascade(s, 14, false)
}
pub fn c13_properties<S: Src>(s: &mut S) {
    cascade(s, KINDS, false)
}
/// Many rules, the same property: order of equal specificity over long stylesheets.
pub fn c13_long<S: Src>(s: &mut S) {
    let (t, _) = theme(s);
    let m = WidgetMeta { type_name: "A", id: Some("p".into()), classes: vec!["x".into(), "y-z".into()], ..Default::default() };
    let n = 10 + s.below(60);
    let mut text = String::new();
    let mut best: Option<((u32, u32, u32), i64)> = None;
    for _ in 0..n {
        let pool = [("A", (0, 0, 1)), ("*", (0, 0, 0)), (".x", (0, 1, 0)), ("A.x", (0, 1, 1)), (".x.y-z", (0, 2, 0)), ("#p", (1, 0, 0)), ("A#p", (1, 0, 1)), ("B", (0, 0, 99)), ("#q", (99, 0, 0))];
        let k = 1 + s.below(2);
        let sel: Vec<_> = (0..k).map(|_| pool[s.below(pool.len())]).collect();
        let v = s.range(1, 60);
        text.push_str(&format!("{} {{ width: {v}; }}\n", sel.iter().map(|x| x.0).collect::<Vec<_>>().join(", ")));
        if let Some(sp) = sel.iter().map(|x| x.1).filter(|x| x.0 < 99 && x.2 < 99).max() {
            if best.is_none_or(|b| sp >= b.0) {
                best = Some((sp, v));
            }
        }
    }
    s.note(&|| text.clone());
    let sheet = parse_stylesheet(&text).unwrap_or_else(|e| panic!("well-formed stylesheet rejected: {e:?}"));
    let got = compute_style(&m, &[], &sheet, &t).width;
    assert!(got == best.map(|b| Scalar::cells(b.1 as f64)), "width {got:?}, expected {best:?}");
}
/// Selectors with very many simple selectors of one kind: each column of the specificity counts on its own.
pub fn c13_columns<S: Src>(s: &mut S) {
    let (t, _) = theme(s);
    let m = WidgetMeta { type_name: "A", id: Some("p".into()), classes: vec!["x".into()], ..Default::default() };
    let anc: Vec<WidgetMeta> = (0..300).map(|_| WidgetMeta { type_name: "B", ..Default::default() }).collect();
    let mut text = String::new();
    let mut best: Option<((u32, u32, u32), i64)> = None;
    for _ in 0..2 + s.below(3) {
        let many = |s: &mut S, hi: i64| if s.bool() { s.range(0, 2) } else { s.range(0, hi) } as usize;
        let (i, c, k, a) = (many(s, 3), many(s, 280), many(s, 280), s.below(2));
        let v = s.range(1, 60);
        text.push_str(&format!("{}{}{}{} {{ width: {v}; }}\n", "B ".repeat(k), if a == 1 { "A" } else { "*" }, "#p".repeat(i), ".x".repeat(c)));
        let sp = (i as u32, c as u32, (k + a) as u32);
        if best.is_none_or(|b| sp >= b.0) {
            best = Some((sp, v));
        }
    }
    s.note(&|| text.clone());
    let sheet = parse_stylesheet(&text).unwrap_or_else(|e| panic!("well-formed stylesheet rejected: {e:?}"));
    let got = compute_style(&m, &anc, &sheet, &t).width;
    assert!(got == best.map(|b| Scalar::cells(b.1 as f64)), "width {got:?}, expected {best:?}");
}
