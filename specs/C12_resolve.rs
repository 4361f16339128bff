use vstd::prelude::*;
use std::collections::VecDeque;

verus! {

// ---------------------------------------------------------------- what is resolved: a tree of widgets
#[verifier::external_body]
pub struct WidgetMeta { x: u8 }
#[verifier::external_body]
pub struct ComputedStyle { x: u8 }
#[verifier::external_body]
pub struct StyleOverride { x: u8 }
#[verifier::external_body]
pub struct StyleSheet { x: u8 }
#[verifier::external_body]
pub struct Theme { x: u8 }
#[verifier::external_body]
pub struct InheritedContext { x: u8 }
pub struct Tree { pub shown: bool, pub dirty: bool, pub meta: WidgetMeta, pub inline: Option<StyleOverride>, pub style: ComputedStyle, pub kids: Seq<Tree> }

/// the cascade (C13), inheritance and inline styles, as they are
pub uninterp spec fn cascade(meta: WidgetMeta, above: Seq<WidgetMeta>, sheet: StyleSheet, theme: Theme) -> ComputedStyle;
pub uninterp spec fn inheriting(s: ComputedStyle, inh: InheritedContext) -> ComputedStyle;
pub uninterp spec fn overridden(o: StyleOverride, s: ComputedStyle) -> ComputedStyle;
pub uninterp spec fn handed_down(s: ComputedStyle, inh: InheritedContext) -> InheritedContext;
pub uninterp spec fn from_above(theme: Theme) -> InheritedContext;

/// the style of a widget: by its own description and those of the widgets it is in, the innermost first
pub open spec fn proper(t: Tree, above: Seq<WidgetMeta>, inh: InheritedContext, sheet: StyleSheet, theme: Theme) -> ComputedStyle {
    let s = inheriting(cascade(t.meta, above, sheet, theme), inh);
    match t.inline { Some(o) => overridden(o, s), None => s }
}
/// the tree with the styles of the widgets in need of it computed again, and of all widgets in those
pub open spec fn resolved(t: Tree, above: Seq<WidgetMeta>, all: bool, inh: InheritedContext, sheet: StyleSheet, theme: Theme) -> Tree decreases t, t.kids.len() + 1 {
    if !t.shown { t } else {
        let style = if t.dirty || all { proper(t, above, inh, sheet, theme) } else { t.style };
        Tree { style: style, dirty: false, kids: kids(t, t.kids.len(), seq![t.meta] + above, t.dirty || all, handed_down(style, inh), sheet, theme), ..t }
    }
}
/// the first n of its children resolved
pub open spec fn kids(t: Tree, n: nat, above: Seq<WidgetMeta>, all: bool, inh: InheritedContext, sheet: StyleSheet, theme: Theme) -> Seq<Tree> decreases t, n {
    if n == 0 || n > t.kids.len() { seq![] } else { kids(t, (n - 1) as nat, above, all, inh, sheet, theme).push(resolved(t.kids[n - 1], above, all, inh, sheet, theme)) }
}
proof fn lemma_kids(t: Tree, n: nat, above: Seq<WidgetMeta>, all: bool, inh: InheritedContext, sheet: StyleSheet, theme: Theme)
    requires n <= t.kids.len()
    ensures kids(t, n, above, all, inh, sheet, theme).len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] kids(t, n, above, all, inh, sheet, theme)[i] == resolved(t.kids[i], above, all, inh, sheet, theme)
    decreases n
{ if n > 0 { lemma_kids(t, (n - 1) as nat, above, all, inh, sheet, theme); } }

// ---------------------------------------------------------------- the property
/// Every widget has its proper style, hidden parts of the tree aside.
pub open spec fn settled(t: Tree, above: Seq<WidgetMeta>, inh: InheritedContext, sheet: StyleSheet, theme: Theme) -> bool decreases t {
    !t.shown || (!t.dirty && t.style == proper(t, above, inh, sheet, theme)
        && forall|i: int| 0 <= i < t.kids.len() ==> settled(#[trigger] t.kids[i], seq![t.meta] + above, handed_down(t.style, inh), sheet, theme))
}
/// Whatever does not have its proper style is marked, or within something marked.
pub open spec fn marked(t: Tree, above: Seq<WidgetMeta>, inh: InheritedContext, sheet: StyleSheet, theme: Theme) -> bool decreases t {
    !t.shown || t.dirty || (t.style == proper(t, above, inh, sheet, theme)
        && forall|i: int| 0 <= i < t.kids.len() ==> marked(#[trigger] t.kids[i], seq![t.meta] + above, handed_down(t.style, inh), sheet, theme))
}
/// THE PROPERTY: after resolving, every widget has the style its own path gives it.
proof fn theorem_resolved(t: Tree, above: Seq<WidgetMeta>, all: bool, inh: InheritedContext, sheet: StyleSheet, theme: Theme)
    requires all || marked(t, above, inh, sheet, theme)
    ensures settled(resolved(t, above, all, inh, sheet, theme), above, inh, sheet, theme)
    decreases t
{
    if t.shown {
        let r = resolved(t, above, all, inh, sheet, theme);
        let (up, every, down) = (seq![t.meta] + above, t.dirty || all, handed_down(r.style, inh));
        lemma_kids(t, t.kids.len(), up, every, down, sheet, theme);
        assert forall|i: int| 0 <= i < r.kids.len() implies settled(#[trigger] r.kids[i], up, down, sheet, theme) by {
            assert(every || marked(t.kids[i], up, down, sheet, theme));
            theorem_resolved(t.kids[i], up, every, down, sheet, theme);
        }
    }
}

// ---------------------------------------------------------------- the contract every widget keeps
#[verifier::external_body]
pub struct Node { x: u8 }
impl Node {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    fn is_visible(&self) -> (r: bool) ensures r == self.tree().shown { unimplemented!() }
    #[verifier::external_body]
    fn is_dirty(&self) -> (r: bool) ensures r == self.tree().dirty { unimplemented!() }
    #[verifier::external_body]
    fn get_meta(&self) -> (r: WidgetMeta) ensures r == self.tree().meta { unimplemented!() }
    #[verifier::external_body]
    fn get_style(&self) -> (r: ComputedStyle) ensures r == self.tree().style { unimplemented!() }
    #[verifier::external_body]
    fn inline_style(&self) -> (r: Option<&StyleOverride>)
        ensures r is Some == self.tree().inline is Some, r is Some ==> *r->Some_0 == self.tree().inline->Some_0 { unimplemented!() }
    #[verifier::external_body]
    fn set_style(&mut self, s: ComputedStyle) ensures final(self).tree() == (Tree { style: s, ..old(self).tree() }) { unimplemented!() }
    #[verifier::external_body]
    fn mark_clean(&mut self) ensures final(self).tree() == (Tree { dirty: false, ..old(self).tree() }) { unimplemented!() }
    #[verifier::external_body]
    fn child_count(&self) -> (r: usize) ensures r == self.tree().kids.len() { unimplemented!() }
    /// the i-th widget for_each_child hands out
    #[verifier::external_body]
    fn child(&mut self, i: usize) -> (r: &mut Node)
        requires i < old(self).tree().kids.len()
        ensures r.tree() == old(self).tree().kids[i as int],
            final(self).tree() == (Tree { kids: old(self).tree().kids.update(i as int, final(r).tree()), ..old(self).tree() })
    { unimplemented!() }
}
#[verifier::external_body]
fn compute_style(meta: &WidgetMeta, above: &VecDeque<WidgetMeta>, sheet: &StyleSheet, theme: &Theme) -> (r: ComputedStyle) ensures r == cascade(*meta, above@, *sheet, *theme) { unimplemented!() }
#[verifier::external_body]
fn apply_inheritance(s: &mut ComputedStyle, inh: &InheritedContext) ensures *final(s) == inheriting(*old(s), *inh) { unimplemented!() }
#[verifier::external_body]
fn build_inherited_context(s: &mut ComputedStyle, inh: &InheritedContext) -> (r: InheritedContext) ensures r == handed_down(*old(s), *inh) { unimplemented!() }
#[verifier::external_body]
fn copy_style(s: &ComputedStyle) -> (r: ComputedStyle) ensures r == *s { unimplemented!() }
impl StyleOverride {
    #[verifier::external_body]
    fn apply_to(&self, s: &mut ComputedStyle) ensures *final(s) == overridden(*self, *old(s)) { unimplemented!() }
}
impl InheritedContext {
    #[verifier::external_body]
    fn from_theme(theme: &Theme) -> (r: InheritedContext) ensures r == from_above(*theme) { unimplemented!() }
}

// ---------------------------------------------------------------- the code
//@ extract crates/textual/src/style_resolver.rs fn resolve_dirty_styles
//@ sub SIG:dyn Widget<M> ==> Node
//@ sub SIG:<M> ==> 
//@ sub let ancestors_slice = ancestors\.make_contiguous\(\); ==> let ancestors_slice = &*ancestors;
//@ sub log::trace!\(.*?\); ==> 
//@ sub style\.clone\(\) ==> copy_style(&style)
//@ sub widget\.for_each_child\(&mut \|child\| \{(.*?)\}\); ==> let children = widget.child_count(); for i in 0..children { let child = widget.child(i); \1 }
//@ contract
    ensures final(widget).tree() == resolved(old(widget).tree(), old(ancestors)@, parent_dirty, *inherited, *stylesheet, *theme),
        final(ancestors)@ == old(ancestors)@
    decreases old(widget).tree()
//@ start
    let ghost t = widget.tree();
    let ghost above = ancestors@;
//@ before_loop 1
    let ghost w = widget.tree();
    let ghost up = ancestors@;
    proof { assert(up =~= seq![t.meta] + above); }
//@ loop 1
    invariant t == old(widget).tree(), children == t.kids.len(), ancestors@ == up, w.kids == t.kids, should_restyle == (t.dirty || parent_dirty),
        widget.tree() == (Tree { kids: widget.tree().kids, ..w }),
        widget.tree().kids =~= kids(t, i as nat, up, should_restyle, child_inherited, *stylesheet, *theme) + t.kids.skip(i as int),
//@ loop_start 1
    proof { lemma_kids(t, i as nat, up, should_restyle, child_inherited, *stylesheet, *theme); lemma_kids(t, (i + 1) as nat, up, should_restyle, child_inherited, *stylesheet, *theme);
        assert(widget.tree().kids[i as int] == t.kids[i as int]); assert(decreases_to!(t => t.kids[i as int])); }
//@ after_loop 1
    proof { lemma_kids(t, t.kids.len(), up, should_restyle, child_inherited, *stylesheet, *theme); }
//@ end

//@ extract crates/textual/src/style_resolver.rs fn resolve_styles
//@ sub SIG:dyn Widget<M> ==> Node
//@ sub SIG:<M> ==> 
//@ contract
    ensures final(widget).tree() == resolved(old(widget).tree(), old(ancestors)@, true, from_above(*theme), *stylesheet, *theme),
        settled(final(widget).tree(), old(ancestors)@, from_above(*theme), *stylesheet, *theme),
        final(ancestors)@ == old(ancestors)@
//@ start
    proof { theorem_resolved(widget.tree(), ancestors@, true, from_above(*theme), *stylesheet, *theme); }
//@ end
}
