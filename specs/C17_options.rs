use vstd::prelude::*;

verus! {

pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32)
    ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });
// ---------------------------------------------------------------- the state, cut down to what the property is about
/// what a child widget shows
pub ghost struct Look { pub text: Seq<char>, pub markup: bool, pub classes: Seq<Seq<char>>, pub disabled: bool }
#[verifier::external_body] pub struct Inner { x: u8 }
impl Inner {
    pub uninterp spec fn shown(&self) -> Seq<Look>;
    #[verifier::external_body] fn empty() -> Inner { unimplemented!() }
    #[verifier::external_body] fn set_children(&mut self, kids: Vec<Static>) ensures final(self).shown() == looks_of(kids@) { unimplemented!() }
}
#[verifier::external_body] pub struct Static { x: u8 }
impl Static {
    pub uninterp spec fn look(&self) -> Look;
    #[verifier::external_body] fn new(text: String) -> (r: Static) ensures r.look() == (Look { text: text@, markup: r.look().markup, classes: seq![], disabled: false }) { unimplemented!() }
    #[verifier::external_body] fn with_markup(self, on: bool) -> (r: Static) ensures r.look() == (Look { markup: on, ..self.look() }) { unimplemented!() }
    #[verifier::external_body] fn with_classes(self, c: &str) -> (r: Static) ensures r.look() == (Look { classes: words(c@), ..self.look() }) { unimplemented!() }
    #[verifier::external_body] fn set_disabled(&mut self, d: bool) ensures final(self).look() == (Look { disabled: d, ..old(self).look() }) { unimplemented!() }
    #[verifier::external_body] fn add_class(&mut self, c: &str) ensures final(self).look() == (Look { classes: old(self).look().classes.push(c@), ..old(self).look() }) { unimplemented!() }
}
pub open spec fn looks_of(k: Seq<Static>) -> Seq<Look> { Seq::new(k.len(), |i: int| k[i].look()) }
pub uninterp spec fn words(t: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn escaped(t: Seq<char>) -> Seq<char>;
#[verifier::external_body] fn escape_markup(t: &String) -> (r: String) ensures r@ == escaped(t@) { unimplemented!() }
#[verifier::external_body] fn copy(t: &String) -> (r: String) ensures r@ == t@ { t.clone() }
#[verifier::external_body] fn no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] pub struct Msg { x: u8 }
pub
//@ extract crates/textual/src/widget/option_list.rs struct OptionList
//@ sub OptionList<M> ==> OptionList
//@ sub inner: Container<M> ==> pub inner: Inner
//@ sub _phantom: PhantomData<M>, ==>
//@ sub (items|disabled|line_counts|selected|focused|dirty|allow_markup|last_width|pending_selection): ==> pub \1:
//@ end
pub
//@ extract crates/textual/src/widget/option_list.rs struct OptionItem
//@ sub (text|disabled): ==> pub \1:
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/canvas.rs struct Region
//@ end
impl Region {
//@ extract crates/textual/src/canvas.rs fn Region::contains_point
//@ ret r
//@ contract
    requires self.x + self.width <= i32::MAX, self.y + self.height <= i32::MAX, self.width >= 0, self.height >= 0,
    ensures r == (self.x <= x < self.x + self.width && self.y <= y < self.y + self.height)
//@ end
}
pub enum KeyCode { Up, Down, Left, Right, Enter, Esc, Tab, BackTab, Home, End, PageUp, PageDown, Backspace, Delete, Insert, Null, Char(char), F(u8) }
pub enum MouseButton { Left, Right, Middle }
pub enum MouseEventKind { Down(MouseButton), Up(MouseButton), Drag(MouseButton), Moved, ScrollDown, ScrollUp, ScrollLeft, ScrollRight }
pub struct MouseEvent { pub kind: MouseEventKind, pub column: u16, pub row: u16 }

// ---------------------------------------------------------------- vocabulary
pub open spec fn enabled(d: Seq<bool>, i: int) -> bool { 0 <= i < d.len() && !d[i] }
pub open spec fn none_between(d: Seq<bool>, lo: int, hi: int) -> bool { forall|k: int| lo <= k < hi ==> !#[trigger] enabled(d, k) }
/// i is the nearest enabled option after (before) s
pub open spec fn next_after(d: Seq<bool>, s: int, i: int) -> bool { s < i && enabled(d, i) && none_between(d, s + 1, i) }
pub open spec fn next_before(d: Seq<bool>, s: int, i: int) -> bool { i < s && enabled(d, i) && none_between(d, i + 1, s) }
/// where the highlight goes when s (inside the list) is asked for
pub open spec fn settled(d: Seq<bool>, s: int, i: int) -> bool {
    if enabled(d, s) { i == s }
    else if !none_between(d, s + 1, d.len() as int) { next_after(d, s, i) }
    else if !none_between(d, 0, s) { next_before(d, s, i) }
    else { i == s }
}
pub open spec fn clamp(s: int, n: int) -> int { if n == 0 { 0 } else if s >= n { n - 1 } else { s } }
impl OptionList {
    pub open spec fn sized(self) -> bool { self.disabled.len() == self.items.len() && self.items.len() <= i32::MAX }
    /// the property: inside the list, and enabled whenever some option is
    pub open spec fn wf(self) -> bool {
        &&& self.sized()
        &&& self.selected == 0 || self.selected < self.items.len()
        &&& (exists|k: int| #[trigger] enabled(self.disabled@, k)) ==> enabled(self.disabled@, self.selected as int)
    }
    pub open spec fn same_options(self, o: OptionList) -> bool { self.items@ == o.items@ && self.disabled@ == o.disabled@ }
    pub uninterp spec fn off(self) -> bool;
    /// the child widgets show the options as they are, the highlighted one (and no other) highlighted
    pub open spec fn fresh(self) -> bool { self.line_counts@ == line_counts(self.items@) && self.inner.shown() == looks(self.items@, self.disabled@, self.selected as int, self.allow_markup) }
    #[verifier::external_body]
    fn is_disabled(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn is_visible(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn inner_on_mouse(&mut self, event: MouseEvent, region: Region) -> (r: Option<Msg>)
        ensures final(self).same_options(*old(self)), final(self).selected == old(self).selected, final(self).pending_selection == old(self).pending_selection, final(self).line_counts@ == old(self).line_counts@, final(self).inner.shown() == old(self).inner.shown(), final(self).allow_markup == old(self).allow_markup,
    { unimplemented!() }
}
pub open spec fn breaks(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { breaks(t.drop_last()) + if t.last() == '\n' { 1int } else { 0 } } }
/// how many rows each option takes
pub open spec fn line_counts(items: Seq<String>) -> Seq<usize> { Seq::new(items.len(), |i: int| (1 + breaks(items[i]@)) as usize) }
/// (the std iterator pipeline of `refresh_display`)
#[verifier::external_body] fn count_lines(items: &Vec<String>) -> (r: Vec<usize>) ensures r@ == line_counts(items@) { items.iter().map(|item| item.split('\n').count().max(1)).collect() }
pub open spec fn option_look(items: Seq<String>, d: Seq<bool>, s: int, markup: bool, i: int) -> Look {
    let off = i < d.len() && d[i];
    let base = words("option-list--option"@);
    let c1 = if off { base.push("option-list--option-disabled"@) } else { base };
    let c2 = if i == s && !off { c1.push("option-list--option-highlighted"@) } else { c1 };
    Look { text: if markup { items[i]@ } else { escaped(items[i]@) }, markup: true, classes: c2, disabled: off }
}
pub open spec fn looks(items: Seq<String>, d: Seq<bool>, s: int, markup: bool) -> Seq<Look> {
    if items.len() == 0 { seq![Look { text: Seq::empty(), markup: true, classes: words("option-list--option"@), disabled: false }] } else { Seq::new(items.len(), |i: int| option_look(items, d, s, markup, i)) }
}
fn get_flag(v: &Vec<bool>, i: usize) -> (r: bool) ensures r == (i < v.len() && v[i as int]) { if i < v.len() { v[i] } else { false } }
#[verifier::external_body]
fn no_flags(n: usize) -> (r: Vec<bool>) ensures r.len() == n, forall|k: int| 0 <= k < n ==> !#[trigger] r[k] { vec![false; n] }
#[verifier::external_body]
fn texts(items: &Vec<OptionItem>) -> (r: Vec<String>) ensures r.len() == items.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k]@ == items[k].text@
{ items.iter().map(|item| item.text.clone()).collect() }
#[verifier::external_body]
fn flags(items: &Vec<OptionItem>) -> (r: Vec<bool>) ensures r.len() == items.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == items[k].disabled
{ items.iter().map(|item| item.disabled).collect() }
pub open spec fn rows_before(c: Seq<usize>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { rows_before(c, i - 1) + c[i - 1] } }

proof fn lemma_settled(d: Seq<bool>, s: int, i: int)
    requires settled(d, s, i), 0 <= s < d.len(),
    ensures 0 <= i < d.len(), (exists|k: int| #[trigger] enabled(d, k)) ==> enabled(d, i),
{
    if exists|k: int| #[trigger] enabled(d, k) {
        let k = choose|k: int| #[trigger] enabled(d, k);
        if k == s {} else if k > s { assert(!none_between(d, s + 1, d.len() as int)); } else { assert(!none_between(d, 0, s)); }
    }
}

// ---------------------------------------------------------------- the code
impl OptionList {
//@ extract crates/textual/src/widget/option_list.rs fn OptionList::refresh_display
//@ sub self\s*\.items\s*\.iter\(\)\s*\.map\(\|item\| item\.split\('\\n'\)\.count\(\)\.max\(1\)\)\s*\.collect\(\) ==> count_lines(&self.items)
//@ sub Vec<Box<dyn Widget<M>>> ==> Vec<Static>
//@ sub for \(index, item\) in self\.items\.iter\(\)\.enumerate\(\) \{ ==> for index in 0..self.items.len() { let item = &self.items[index];
//@ sub item\.clone\(\) ==> copy(item)
//@ sub Static::new\(""\) ==> Static::new(no_text())
//@ sub Box::new\((\w+)\) ==> \1
//@ sub Vec::with_capacity\(self\.items\.len\(\)\.max\(1\)\) ==> Vec::new()
//@ sub children\.is_empty\(\) ==> children.len() == 0
//@ nloops 1
//@ contract
    ensures final(self).same_options(*old(self)), final(self).selected == old(self).selected, final(self).pending_selection == old(self).pending_selection, final(self).allow_markup == old(self).allow_markup, final(self).fresh(),
//@ loop 1
    invariant self.same_options(*old(self)), self.selected == old(self).selected, self.pending_selection == old(self).pending_selection, self.allow_markup == old(self).allow_markup, self.line_counts@ == line_counts(self.items@),
        children@.len() == index, forall|k: int| 0 <= k < index ==> (#[trigger] children@[k]).look() == option_look(self.items@, self.disabled@, self.selected as int, self.allow_markup, k),
//@ after_loop 1
    proof {
        let all = looks(self.items@, self.disabled@, self.selected as int, self.allow_markup);
        if self.items@.len() > 0 { assert(looks_of(children@) =~= all); }
        else { assert forall|x: Static| x.look() == all[0] implies looks_of(#[trigger] children@.push(x)) == all by { assert(looks_of(children@.push(x)) =~= all); } }
    }
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn OptionList::new
//@ ret r
//@ sub Container::new\(Vec::new\(\)\)\.with_layout\(Layout::Vertical\) ==> Inner::empty()
//@ sub _phantom: PhantomData, ==> 
//@ sub vec!\[false; list\.items\.len\(\)\] ==> no_flags(list.items.len())
//@ contract
    requires items.len() <= i32::MAX,
    ensures r.wf(), r.fresh(), r.items@ == items@, forall|k: int| 0 <= k < items@.len() ==> #[trigger] enabled(r.disabled@, k), r.selected == 0, r.pending_selection == None::<usize>,
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn OptionList::with_markup
//@ ret r
//@ sub SIG:mut self ==> self
//@ sub \bself\b ==> this
//@ contract
    requires self.wf(),
    ensures r.wf(), r.fresh(), r.same_options(self), r.selected == self.selected, r.allow_markup == allow,
//@ start
    let mut this = self;
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn OptionList::with_items
//@ ret r
//@ sub SIG:mut self ==> self
//@ sub \bself\b ==> this
//@ contract
    requires items.len() <= i32::MAX,
    ensures r.wf(), r.fresh(), r.items@ == items@,
//@ start
    let mut this = self;
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn OptionList::set_markup
//@ contract
    requires old(self).wf(), old(self).fresh(),
    ensures final(self).wf(), final(self).fresh(), final(self).same_options(*old(self)), final(self).selected == old(self).selected, final(self).allow_markup == allow,
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn OptionList::selected_index
//@ ret r
//@ contract
    ensures r == self.selected,
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn OptionList::disabled_at
//@ ret r
//@ sub self\.disabled\.get\(index\)\.copied\(\)\.unwrap_or\(false\) ==> get_flag(&self.disabled, index)
//@ contract
    ensures r == (index < self.disabled.len() && self.disabled[index as int])
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn OptionList::next_enabled_from
//@ ret r
//@ contract
    requires self.sized(), start < self.items.len(), delta == 1 || delta == -1,
    ensures
        delta == 1 ==> match r { Some(i) => next_after(self.disabled@, start as int, i as int), None => none_between(self.disabled@, start + 1, self.disabled.len() as int) },
        delta == -1 ==> match r { Some(i) => next_before(self.disabled@, start as int, i as int), None => none_between(self.disabled@, 0, start as int) },
//@ loop 1
    invariant self.sized(), len == self.items.len(), start < len, delta == 1 || delta == -1, 0 <= index < len,
        delta == 1 ==> index >= start && none_between(self.disabled@, start + 1, index + 1),
        delta == -1 ==> index <= start && none_between(self.disabled@, index as int, start as int),
    decreases (if delta == 1 { len - index } else { index + 1 }),
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn OptionList::normalize_selected
//@ contract
    requires old(self).sized(),
    ensures final(self).wf(), final(self).same_options(*old(self)), final(self).pending_selection == old(self).pending_selection,
        old(self).items.len() == 0 ==> final(self).selected == 0,
        old(self).items.len() > 0 ==> settled(old(self).disabled@, clamp(old(self).selected as int, old(self).items.len() as int), final(self).selected as int),
//@ start
    proof {
        let d = self.disabled@; let s = clamp(self.selected as int, self.items.len() as int);
        assert forall|i: int| d.len() > 0 && settled(d, s, i) implies 0 <= i < d.len() && ((exists|k: int| #[trigger] enabled(d, k)) ==> enabled(d, i)) by { lemma_settled(d, s, i); }
        assert(forall|k: int| #[trigger] enabled(d, k) ==> d.len() > 0);
    }
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn OptionList::move_selection
//@ contract
    requires old(self).wf(), old(self).fresh(), delta == 1 || delta == -1,
    ensures final(self).wf(), final(self).fresh(),  final(self).same_options(*old(self)), final(self).pending_selection == old(self).pending_selection,
        delta == 1 ==> (next_after(old(self).disabled@, old(self).selected as int, final(self).selected as int)
            || final(self).selected == old(self).selected && none_between(old(self).disabled@, old(self).selected + 1, old(self).disabled.len() as int)),
        delta == -1 ==> (next_before(old(self).disabled@, old(self).selected as int, final(self).selected as int)
            || final(self).selected == old(self).selected && none_between(old(self).disabled@, 0, old(self).selected as int)),
//@ loop 1
    invariant_except_break self.fresh(), self.same_options(*old(self)), self.selected == old(self).selected, self.wf(), self.pending_selection == old(self).pending_selection, len == self.items.len(), delta == 1 || delta == -1, 0 <= index < len,
        delta == 1 ==> index >= self.selected && none_between(self.disabled@, self.selected + 1, index + 1),
        delta == -1 ==> index <= self.selected && none_between(self.disabled@, index as int, self.selected as int),
    ensures self.fresh(), self.same_options(*old(self)), self.wf(), self.pending_selection == old(self).pending_selection,
        delta == 1 ==> (next_after(old(self).disabled@, old(self).selected as int, self.selected as int)
            || self.selected == old(self).selected && none_between(old(self).disabled@, old(self).selected + 1, old(self).disabled.len() as int)),
        delta == -1 ==> (next_before(old(self).disabled@, old(self).selected as int, self.selected as int)
            || self.selected == old(self).selected && none_between(old(self).disabled@, 0, old(self).selected as int)),
    decreases (if delta == 1 { len - index } else { index + 1 }),
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn OptionList::set_selected
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).fresh(),  final(self).same_options(*old(self)), final(self).pending_selection == old(self).pending_selection,
        old(self).items.len() > 0 ==> settled(old(self).disabled@, clamp(selected as int, old(self).items.len() as int), final(self).selected as int),
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn OptionList::set_items
//@ sub vec!\[false; self\.items\.len\(\)\] ==> no_flags(self.items.len())
//@ contract
    requires items.len() <= i32::MAX,
    ensures final(self).wf(), final(self).fresh(),  final(self).items@ == items@, final(self).pending_selection == old(self).pending_selection,
        items.len() > 0 ==> final(self).selected == clamp(old(self).selected as int, items.len() as int),
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn OptionList::set_items_with_state
//@ sub items\.iter\(\)\.map\(\|item\| item\.text\.clone\(\)\)\.collect\(\) ==> texts(&items)
//@ sub items\.iter\(\)\.map\(\|item\| item\.disabled\)\.collect\(\) ==> flags(&items)
//@ contract
    requires items.len() <= i32::MAX,
    ensures final(self).wf(), final(self).fresh(),  final(self).items.len() == items.len(), forall|k: int| 0 <= k < items.len() ==> #[trigger] final(self).disabled[k] == items[k].disabled,
        items.len() > 0 ==> settled(final(self).disabled@, clamp(old(self).selected as int, items.len() as int), final(self).selected as int),
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn OptionList::index_for_row
//@ ret r
//@ sub for \(index, count\) in self\.line_counts\.iter\(\)\.enumerate\(\) \{ ==> for index in 0..self.line_counts.len() { let count = &self.line_counts[index];
//@ contract
    ensures r is Some ==> r->Some_0 < self.line_counts.len()
            && rows_before(self.line_counts@, r->Some_0 as int) <= row < rows_before(self.line_counts@, r->Some_0 + 1),
        r is None ==> row >= rows_before(self.line_counts@, self.line_counts.len() as int),
//@ loop 1
    invariant remaining + rows_before(self.line_counts@, index as int) == row,
//@ loop_start 1
    proof { assert(rows_before(self.line_counts@, index + 1) == rows_before(self.line_counts@, index as int) + self.line_counts[index as int]); }
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn Widget for OptionList::on_event
//@ ret r
//@ sub SIG:Option<M> ==> Option<Msg>
//@ contract
    requires old(self).wf(), old(self).fresh(),
    ensures final(self).wf(), final(self).fresh(), final(self).same_options(*old(self)), final(self).pending_selection == old(self).pending_selection,
        !(key is Up || key is Down) ==> final(self).selected == old(self).selected,
        key is Down ==> final(self).selected == old(self).selected || next_after(old(self).disabled@, old(self).selected as int, final(self).selected as int),
        key is Up ==> final(self).selected == old(self).selected || next_before(old(self).disabled@, old(self).selected as int, final(self).selected as int),
//@ end

//@ extract crates/textual/src/widget/option_list.rs fn Widget for OptionList::on_mouse
//@ ret r
//@ sub SIG:Option<M> ==> Option<Msg>
//@ sub crossterm::event::MouseButton ==> MouseButton
//@ sub self\.inner\.on_mouse\( ==> self.inner_on_mouse(
//@ contract
    requires old(self).wf(), old(self).fresh(),
        region.x + region.width <= i32::MAX, region.y + region.height <= i32::MAX, region.width >= 0, region.height >= 0, region.y >= -1000000,
    ensures final(self).wf(), final(self).fresh(), final(self).same_options(*old(self)),
        final(self).selected != old(self).selected || final(self).pending_selection != old(self).pending_selection ==>
            event.kind == MouseEventKind::Up(MouseButton::Left) && enabled(final(self).disabled@, final(self).selected as int)
            && final(self).pending_selection == Some(final(self).selected)
            && rows_before(old(self).line_counts@, final(self).selected as int) <= event.row - region.y < rows_before(old(self).line_counts@, final(self).selected + 1)
            && region.x <= event.column < region.x + region.width && region.y <= event.row < region.y + region.height,
//@ end
}
}
