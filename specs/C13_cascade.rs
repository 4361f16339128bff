use vstd::prelude::*;
use std::cmp::Ordering;

verus! {
//@ include C12_match.rs
//@ include C13_types.rs

#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct Specificity
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct SelectorList
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct Rule
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs enum RuleItem
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct StyleSheet
//@ end
//@ extract crates/tcss/src/parser/cascade.rs struct MatchedRule
//@ sub struct ==> pub struct
//@ sub (specificity|source_order|rule): ==> pub \1:
//@ end

// ---------------------------------------------------------------- specificity
pub open spec fn ids1(s: Selector) -> nat { if s is Id { 1 } else { 0 } }
pub open spec fn classes1(s: Selector) -> nat { if s is Class || s is PseudoClass || s is Attribute { 1 } else { 0 } }
pub open spec fn types1(s: Selector) -> nat { if s is Type { 1 } else { 0 } }
pub open spec fn count(v: Seq<Selector>, f: spec_fn(Selector) -> nat) -> nat
    decreases v.len()
{ if v.len() == 0 { 0 } else { count(v.drop_last(), f) + f(v.last()) } }
pub open spec fn sum(p: Seq<SelectorPart>, f: spec_fn(Selector) -> nat) -> nat
    decreases p.len()
{ if p.len() == 0 { 0 } else { sum(p.drop_last(), f) + count(p.last().compound.selectors@, f) } }
pub open spec fn n1(s: Selector) -> nat { 1 }
/// the number of simple selectors of a complex selector, which bounds each component of its specificity
pub open spec fn fits(c: ComplexSelector) -> bool { sum(c.parts@, |s: Selector| n1(s)) <= u32::MAX }
proof fn lemma_count(v: Seq<Selector>, f: spec_fn(Selector) -> nat)
    requires forall|s: Selector| #[trigger] f(s) <= 1,
    ensures count(v, f) <= v.len(),
    decreases v.len()
{ if v.len() > 0 { lemma_count(v.drop_last(), f); } }
proof fn lemma_count_n(v: Seq<Selector>)
    ensures count(v, |s: Selector| n1(s)) == v.len(),
    decreases v.len()
{ if v.len() > 0 { lemma_count_n(v.drop_last()); } }
proof fn lemma_sum(p: Seq<SelectorPart>, k: int, f: spec_fn(Selector) -> nat)
    requires forall|s: Selector| #[trigger] f(s) <= 1, 0 <= k <= p.len(),
    ensures sum(p.take(k), f) <= sum(p, |s: Selector| n1(s)),
        k < p.len() ==> sum(p.take(k + 1), f) == sum(p.take(k), f) + count(p[k].compound.selectors@, f),
        k < p.len() ==> p[k].compound.selectors.len() <= sum(p, |s: Selector| n1(s)),
    decreases p.len()
{
    if k < p.len() { assert(p.take(k + 1).drop_last() =~= p.take(k)); assert(p.take(k + 1).last() == p[k]); }
    if p.len() > 0 {
        let q = p.drop_last();
        lemma_count(p.last().compound.selectors@, f);
        lemma_count_n(p.last().compound.selectors@);
        if k == p.len() { assert(p.take(k) =~= p); lemma_sum(q, q.len() as int, f); assert(q.take(q.len() as int) =~= q); }
        else { lemma_sum(q, k, f); assert(q.take(k) =~= p.take(k)); if k < q.len() { assert(q[k] == p[k]); } }
    }
}
pub open spec fn spec_of(c: ComplexSelector) -> Specificity {
    Specificity { ids: sum(c.parts@, |s: Selector| ids1(s)) as u32, classes: sum(c.parts@, |s: Selector| classes1(s)) as u32, types: sum(c.parts@, |s: Selector| types1(s)) as u32 }
}
/// lexicographic: ids, then classes and states, then types
pub open spec fn spec_lt(a: Specificity, b: Specificity) -> bool {
    a.ids < b.ids || (a.ids == b.ids && (a.classes < b.classes || (a.classes == b.classes && a.types < b.types)))
}
pub open spec fn lex(a: Specificity, b: Specificity) -> Ordering {
    if spec_lt(a, b) { Ordering::Less } else if spec_lt(b, a) { Ordering::Greater } else { Ordering::Equal }
}
impl Specificity {
    #[verifier::external_body]
    pub fn default() -> (r: Specificity) ensures r.ids == 0, r.classes == 0, r.types == 0 { unimplemented!() }
    // derive(Ord): fields in declaration order
    #[verifier::external_body]
    pub fn cmp(&self, o: &Specificity) -> (r: Ordering) ensures r == lex(*self, *o) { unimplemented!() }
}
#[verifier::external_body]
fn opt_max(a: Option<Specificity>, b: Option<Specificity>) -> (r: Option<Specificity>)
    ensures a is None ==> r == b, b is None ==> r == a,
        a is Some && b is Some ==> r == (if spec_lt(b->Some_0, a->Some_0) { a } else { b })
{ unimplemented!() }
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a });

impl CompoundSelector {
//@ extract crates/tcss/src/parser/stylesheet.rs fn CompoundSelector::specificity
//@ ret r
//@ sub for s in &self\.selectors \{ ==> for i in 0..self.selectors.len() { let s = &self.selectors[i];
//@ contract
    requires self.selectors.len() <= u32::MAX,
    ensures r.ids == count(self.selectors@, |s: Selector| ids1(s)), r.classes == count(self.selectors@, |s: Selector| classes1(s)),
        r.types == count(self.selectors@, |s: Selector| types1(s)),
//@ loop 1
    invariant self.selectors.len() <= u32::MAX,
        spec.ids == count(self.selectors@.take(i as int), |s: Selector| ids1(s)), spec.classes == count(self.selectors@.take(i as int), |s: Selector| classes1(s)),
        spec.types == count(self.selectors@.take(i as int), |s: Selector| types1(s)),
//@ loop_start 1
    proof {
        let t = self.selectors@.take(i as int);
        lemma_count(t, |s: Selector| ids1(s)); lemma_count(t, |s: Selector| classes1(s)); lemma_count(t, |s: Selector| types1(s));
        assert(self.selectors@.take(i + 1).drop_last() =~= t);
        assert(self.selectors@.take(i + 1).last() == self.selectors[i as int]);
    }
//@ after_loop 1
    proof { assert(self.selectors@.take(self.selectors.len() as int) =~= self.selectors@); }
//@ end
}
impl ComplexSelector {
//@ extract crates/tcss/src/parser/stylesheet.rs fn ComplexSelector::specificity
//@ ret r
//@ sub self\.parts\s*\.iter\(\)\s*\.map\(\|p\| p\.compound\.specificity\(\)\)\s*\.fold\(\s*Specificity::default\(\),\s*\|acc, x\| (Specificity \{.*?\}),\s*\) ==> let mut acc = Specificity::default(); for i in 0..self.parts.len() { let x = self.parts[i].compound.specificity(); acc = \1; } acc
//@ contract
    requires fits(*self),
    ensures r == spec_of(*self)
//@ loop 1
    invariant fits(*self),
        acc.ids == sum(self.parts@.take(i as int), |s: Selector| ids1(s)), acc.classes == sum(self.parts@.take(i as int), |s: Selector| classes1(s)),
        acc.types == sum(self.parts@.take(i as int), |s: Selector| types1(s)),
//@ loop_start 1
    proof {
        lemma_sum(self.parts@, i as int, |s: Selector| ids1(s)); lemma_sum(self.parts@, i as int, |s: Selector| classes1(s)); lemma_sum(self.parts@, i as int, |s: Selector| types1(s));
        lemma_sum(self.parts@, i + 1, |s: Selector| ids1(s)); lemma_sum(self.parts@, i + 1, |s: Selector| classes1(s)); lemma_sum(self.parts@, i + 1, |s: Selector| types1(s));
    }
//@ after_loop 1
    proof { assert(self.parts@.take(self.parts.len() as int) =~= self.parts@); }
//@ end
}

// ---------------------------------------------------------------- the cascade
impl SelectorContext {
    pub uninterp spec fn of(theme: Theme) -> SelectorContext;
    #[verifier::external_body]
    fn from_theme(theme: &Theme) -> (r: SelectorContext) ensures r == SelectorContext::of(*theme) { unimplemented!() }
}
pub uninterp spec fn initial() -> ComputedStyle;
impl ComputedStyle {
    #[verifier::external_body]
    fn default() -> (r: ComputedStyle) ensures r == initial() { unimplemented!() }
}
/// (the contract proved in C13_apply)
#[verifier::external_body]
fn apply_declaration(style: &mut ComputedStyle, decl: &Declaration, theme: &Theme)
    ensures applies(*old(style), *decl, *theme, *final(style))
{ unimplemented!() }

pub open spec fn matched(r: Rule, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext, k: int) -> bool {
    0 <= k < r.selectors.selectors.len() && complex_ok(w, r.selectors.selectors[k], anc, ctx)
}
/// sp is the specificity the rule counts with: the highest among its matching selectors
pub open spec fn counts_with(r: Rule, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext, sp: Specificity, upto: int) -> bool {
    &&& exists|k: int| k < upto && #[trigger] matched(r, w, anc, ctx, k) && spec_of(r.selectors.selectors[k]) == sp
    &&& forall|k: int| k < upto && #[trigger] matched(r, w, anc, ctx, k) ==> !spec_lt(sp, spec_of(r.selectors.selectors[k]))
}
pub open spec fn no_match(r: Rule, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext, upto: int) -> bool {
    forall|k: int| k < upto ==> !#[trigger] matched(r, w, anc, ctx, k)
}
pub open spec fn entry_ok(m: MatchedRule, sheet: StyleSheet, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext) -> bool {
    &&& 0 <= m.source_order < sheet.rules.len()
    &&& *m.rule == sheet.rules[m.source_order as int]
    &&& counts_with(*m.rule, w, anc, ctx, m.specificity, m.rule.selectors.selectors.len() as int)
}
pub open spec fn rule_cmp(a: MatchedRule, b: MatchedRule) -> Ordering {
    let o = lex(a.specificity, b.specificity);
    if o == Ordering::Equal { if a.source_order < b.source_order { Ordering::Less } else if a.source_order == b.source_order { Ordering::Equal } else { Ordering::Greater } } else { o }
}
/// exactly the matching rules, each once, the less specific (then the earlier) first
pub open spec fn cascade_order(v: Seq<MatchedRule>, sheet: StyleSheet, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> entry_ok(#[trigger] v[i], sheet, w, anc, ctx)
    &&& forall|r: int| 0 <= r < sheet.rules.len() && !no_match(#[trigger] sheet.rules[r], w, anc, ctx, sheet.rules[r].selectors.selectors.len() as int)
            ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i].source_order == r
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> rule_cmp(#[trigger] v[i], #[trigger] v[j]) == Ordering::Less
}
pub open spec fn apply_items(s: ComputedStyle, items: Seq<RuleItem>, t: Theme) -> ComputedStyle
    decreases items.len()
{
    if items.len() == 0 { s } else {
        let p = apply_items(s, items.drop_last(), t);
        match items.last() { RuleItem::Declaration(d) => applied(p, d, t), _ => p }
    }
}
pub open spec fn apply_rules(s: ComputedStyle, v: Seq<MatchedRule>, t: Theme) -> ComputedStyle
    decreases v.len()
{ if v.len() == 0 { s } else { apply_items(apply_rules(s, v.drop_last(), t), v.last().rule.items@, t) } }

/// the winner: whatever is applied last, i.e. the highest (specificity, source order), comes from no other place
proof fn theorem_unique(v: Seq<MatchedRule>, u: Seq<MatchedRule>, sheet: StyleSheet, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext)
    requires cascade_order(v, sheet, w, anc, ctx), v.len() > 0,
    ensures forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].source_order == v.last().source_order || rule_cmp(v[i], v.last()) == Ordering::Less,
{ }

/// all declarations of the matching rules, in the order they are applied
pub open spec fn decls_of(items: Seq<RuleItem>) -> Seq<Declaration> decreases items.len() {
    if items.len() == 0 { seq![] } else { match items.last() { RuleItem::Declaration(d) => decls_of(items.drop_last()).push(d), _ => decls_of(items.drop_last()) } }
}
pub open spec fn all_decls(v: Seq<MatchedRule>) -> Seq<Declaration> decreases v.len() { if v.len() == 0 { seq![] } else { all_decls(v.drop_last()) + decls_of(v.last().rule.items@) } }
pub open spec fn fold(s: ComputedStyle, d: Seq<Declaration>, t: Theme) -> ComputedStyle decreases d.len() { if d.len() == 0 { s } else { applied(fold(s, d.drop_last(), t), d.last(), t) } }
proof fn lemma_fold_more(s: ComputedStyle, a: Seq<Declaration>, b: Seq<Declaration>, t: Theme)
    ensures fold(s, a + b, t) == fold(fold(s, a, t), b, t)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_fold_more(s, a, b.drop_last(), t); }
}
proof fn lemma_fold_items(s: ComputedStyle, items: Seq<RuleItem>, t: Theme)
    ensures apply_items(s, items, t) == fold(s, decls_of(items), t)
    decreases items.len()
{
    if items.len() > 0 {
        lemma_fold_items(s, items.drop_last(), t);
        match items.last() { RuleItem::Declaration(d) => { let p = decls_of(items.drop_last()); assert(p.push(d).drop_last() =~= p); assert(p.push(d).last() == d); } _ => {} }
    }
}
proof fn lemma_fold_rules(s: ComputedStyle, v: Seq<MatchedRule>, t: Theme)
    ensures apply_rules(s, v, t) == fold(s, all_decls(v), t)
    decreases v.len()
{
    if v.len() > 0 {
        lemma_fold_rules(s, v.drop_last(), t);
        lemma_fold_items(apply_rules(s, v.drop_last(), t), v.last().rule.items@, t);
        lemma_fold_more(s, all_decls(v.drop_last()), decls_of(v.last().rule.items@), t);
    }
}
/// declaration k is the last one that names the property
pub open spec fn last_naming(d: Seq<Declaration>, p: Prop, k: int) -> bool { 0 <= k < d.len() && names(d[k], p) && forall|j: int| k < j < d.len() ==> !names(#[trigger] d[j], p) }
proof fn lemma_fold_last(s: ComputedStyle, d: Seq<Declaration>, t: Theme, p: Prop, k: int)
    requires !additive(p), last_naming(d, p, k)
    ensures same_at(fold(s, d, t), applied(s, d[k], t), p)
    decreases d.len()
{
    let n = d.len() as int - 1;
    let b = fold(s, d.drop_last(), t);
    lemma_total(b, d.last(), t);
    if k == n { lemma_total(s, d[k], t); lemma_overwrites(b, s, d[k], t, applied(b, d[k], t), applied(s, d[k], t), p); }
    else {
        assert(!names(d[n], p)); assert(same_at(fold(s, d, t), b, p));
        assert forall|j: int| k < j < d.drop_last().len() implies !names(#[trigger] d.drop_last()[j], p) by { assert(d.drop_last()[j] == d[j]); }
        lemma_fold_last(s, d.drop_last(), t, p, k);
    }
}
proof fn lemma_fold_none(s: ComputedStyle, d: Seq<Declaration>, t: Theme, p: Prop)
    requires forall|j: int| 0 <= j < d.len() ==> !names(#[trigger] d[j], p)
    ensures same_at(fold(s, d, t), s, p)
    decreases d.len()
{
    if d.len() > 0 {
        let b = fold(s, d.drop_last(), t);
        lemma_total(b, d.last(), t);
        assert(!names(d[d.len() - 1], p)); assert(same_at(fold(s, d, t), b, p));
        assert forall|j: int| 0 <= j < d.drop_last().len() implies !names(#[trigger] d.drop_last()[j], p) by { assert(d.drop_last()[j] == d[j]); }
        lemma_fold_none(s, d.drop_last(), t, p);
    }
}
/// The property: the value of every property is the one declared last in (specificity, source order) by a matching rule,
/// the initial one if none names it.
proof fn theorem_winner(v: Seq<MatchedRule>, t: Theme, p: Prop, k: int)
    requires !additive(p)
    ensures last_naming(all_decls(v), p, k) ==> same_at(apply_rules(initial(), v, t), applied(initial(), all_decls(v)[k], t), p),
        (forall|j: int| 0 <= j < all_decls(v).len() ==> !names(#[trigger] all_decls(v)[j], p)) ==> same_at(apply_rules(initial(), v, t), initial(), p)
{
    lemma_fold_rules(initial(), v, t);
    if last_naming(all_decls(v), p, k) { lemma_fold_last(initial(), all_decls(v), t, p, k); }
    if forall|j: int| 0 <= j < all_decls(v).len() ==> !names(#[trigger] all_decls(v)[j], p) { lemma_fold_none(initial(), all_decls(v), t, p); }
}

pub open spec fn le_by<'a, F: Fn(&MatchedRule<'a>, &MatchedRule<'a>) -> Ordering>(f: F, a: MatchedRule<'a>, b: MatchedRule<'a>) -> bool {
    exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && o != Ordering::Greater
}
pub open spec fn sorted_by<'a, F: Fn(&MatchedRule<'a>, &MatchedRule<'a>) -> Ordering>(f: F, v: Seq<MatchedRule<'a>>) -> bool {
    forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le_by(f, v[i], v[j])
}
pub open spec fn perm(a: Seq<MatchedRule>, b: Seq<MatchedRule>, p: spec_fn(int) -> int, q: spec_fn(int) -> int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> 0 <= p(i) < a.len() && q(p(i)) == i && b[i] == a[p(i)]
    &&& forall|k: int| #![trigger q(k)] 0 <= k < a.len() ==> 0 <= q(k) < b.len() && p(q(k)) == k
}
pub open spec fn permuted(a: Seq<MatchedRule>, b: Seq<MatchedRule>) -> bool {
    exists|p: spec_fn(int) -> int, q: spec_fn(int) -> int| #[trigger] perm(a, b, p, q)
}
pub open spec fn not_after(v: Seq<MatchedRule>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> rule_cmp(#[trigger] v[i], #[trigger] v[j]) != Ordering::Greater
}
pub open spec fn found_ok(v: Seq<MatchedRule>, sheet: StyleSheet, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext, upto: int) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> entry_ok(#[trigger] v[i], sheet, w, anc, ctx) && v[i].source_order < upto
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].source_order < #[trigger] v[j].source_order
    &&& forall|r: int| 0 <= r < upto && !no_match(#[trigger] sheet.rules[r], w, anc, ctx, sheet.rules[r].selectors.selectors.len() as int)
            ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i].source_order == r
}
proof fn lemma_order(found: Seq<MatchedRule>, v: Seq<MatchedRule>, sheet: StyleSheet, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext)
    requires found_ok(found, sheet, w, anc, ctx, sheet.rules.len() as int), permuted(found, v), not_after(v),
    ensures cascade_order(v, sheet, w, anc, ctx),
{
    let (p, q) = choose|p: spec_fn(int) -> int, q: spec_fn(int) -> int| #[trigger] perm(found, v, p, q);
    assert forall|i: int| 0 <= i < v.len() implies entry_ok(#[trigger] v[i], sheet, w, anc, ctx) by { assert(v[i] == found[p(i)]); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies rule_cmp(#[trigger] v[i], #[trigger] v[j]) == Ordering::Less by {
        assert(v[i] == found[p(i)] && v[j] == found[p(j)]);
        assert(p(i) != p(j));
        assert(v[i].source_order != v[j].source_order);
        assert(rule_cmp(v[i], v[j]) != Ordering::Greater);
    }
    assert forall|r: int| 0 <= r < sheet.rules.len() && !no_match(#[trigger] sheet.rules[r], w, anc, ctx, sheet.rules[r].selectors.selectors.len() as int)
        implies exists|i: int| 0 <= i < v.len() && #[trigger] v[i].source_order == r by {
        let k = choose|k: int| 0 <= k < found.len() && #[trigger] found[k].source_order == r;
        let i = q(k);
        assert(v[i] == found[p(i)]);
    }
}
proof fn lemma_found_push(v: Seq<MatchedRule>, m: MatchedRule, sheet: StyleSheet, w: WidgetMeta, anc: Seq<WidgetMeta>, ctx: SelectorContext, upto: int)
    requires found_ok(v, sheet, w, anc, ctx, upto), entry_ok(m, sheet, w, anc, ctx), m.source_order == upto,
    ensures found_ok(v.push(m), sheet, w, anc, ctx, upto + 1),
{
    let n = v.push(m);
    assert(n[v.len() as int].source_order == upto);
    assert forall|r: int| 0 <= r < upto + 1 && !no_match(#[trigger] sheet.rules[r], w, anc, ctx, sheet.rules[r].selectors.selectors.len() as int)
        implies exists|i: int| 0 <= i < n.len() && #[trigger] n[i].source_order == r by {
        if r < upto { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].source_order == r; assert(n[i] == v[i]); }
    }
}
/// slice::sort_by: a permutation, sorted by the comparison
#[verifier::external_body]
fn sort_rules<'a, F: Fn(&MatchedRule<'a>, &MatchedRule<'a>) -> Ordering>(v: &mut Vec<MatchedRule<'a>>, f: F)
    requires forall|a: &MatchedRule<'a>, b: &MatchedRule<'a>| #[trigger] f.requires((a, b)),
    ensures permuted(old(v)@, final(v)@), sorted_by(f, final(v)@),
{ unimplemented!() }

//@ extract crates/tcss/src/parser/cascade.rs fn compute_style
//@ ret r
//@ sub let mut matched_rules = Vec::new\(\); ==> let mut matched_rules: Vec<MatchedRule> = Vec::new();
//@ sub for \(idx, rule\) in stylesheet\.rules\.iter\(\)\.enumerate\(\) \{ ==> for idx in 0..stylesheet.rules.len() { let rule = &stylesheet.rules[idx];
//@ sub for complex in &rule\.selectors\.selectors \{ ==> for k in 0..rule.selectors.selectors.len() { let complex = &rule.selectors.selectors[k];
//@ sub best = best\.max\((.*?)\); ==> best = opt_max(best, \1);
//@ sub matched_rules\.sort_by\(\|a, b\| \{ ==> sort_rules(&mut matched_rules, |a: &MatchedRule, b: &MatchedRule| -> (o: Ordering) ensures o == rule_cmp(*a, *b) {
//@ sub for matched in matched_rules \{ ==> for m in 0..matched_rules.len() { let matched = &matched_rules[m];
//@ sub apply_declaration\(&mut computed, decl, theme\); ==> let ghost was = computed; apply_declaration(&mut computed, decl, theme); proof { lemma_applied(was, *decl, *theme, computed); }
//@ sub for item in &matched\.rule\.items \{ ==> for n in 0..matched.rule.items.len() { let item = &matched.rule.items[n];
//@ contract
    requires ancestors.len() < usize::MAX,
        forall|i: int, k: int| 0 <= i < stylesheet.rules.len() && 0 <= k < stylesheet.rules[i].selectors.selectors.len() ==> fits(#[trigger] stylesheet.rules[i].selectors.selectors[k]),
    ensures exists|v: Seq<MatchedRule>| cascade_order(v, *stylesheet, *widget, ancestors@, SelectorContext::of(*theme)) && r == #[trigger] apply_rules(initial(), v, *theme)
//@ loop 1
    invariant ancestors.len() < usize::MAX, ctx == SelectorContext::of(*theme),
        forall|i: int, k: int| 0 <= i < stylesheet.rules.len() && 0 <= k < stylesheet.rules[i].selectors.selectors.len() ==> fits(#[trigger] stylesheet.rules[i].selectors.selectors[k]),
        found_ok(matched_rules@, *stylesheet, *widget, ancestors@, ctx, idx as int),
//@ before_loop 2
    let ghost before = matched_rules@;
//@ loop 2
    invariant ancestors.len() < usize::MAX, ctx == SelectorContext::of(*theme), idx < stylesheet.rules.len(), rule == &stylesheet.rules[idx as int], matched_rules@ == before,
        forall|i: int, k: int| 0 <= i < stylesheet.rules.len() && 0 <= k < stylesheet.rules[i].selectors.selectors.len() ==> fits(#[trigger] stylesheet.rules[i].selectors.selectors[k]),
        best is None ==> no_match(*rule, *widget, ancestors@, ctx, k as int),
        best is Some ==> counts_with(*rule, *widget, ancestors@, ctx, best->Some_0, k as int),
//@ loop_start 2
    proof {
        assert(fits(stylesheet.rules[idx as int].selectors.selectors[k as int]));
        assert(matched(*rule, *widget, ancestors@, ctx, k as int) == complex_ok(*widget, rule.selectors.selectors[k as int], ancestors@, ctx));
    }
//@ loop_end 1
    proof {
        if best is Some {
            assert(matched_rules@ == before.push(matched_rules@.last()));
            lemma_found_push(before, matched_rules@.last(), *stylesheet, *widget, ancestors@, ctx, idx as int);
        } else {
            assert(matched_rules@ == before);
            assert(no_match(stylesheet.rules[idx as int], *widget, ancestors@, ctx, stylesheet.rules[idx as int].selectors.selectors.len() as int));
        }
    }
//@ after_loop 1
    let ghost found = matched_rules@;
//@ before_loop 3
    let ghost v = matched_rules@;
    proof {
        assert(not_after(v));
        lemma_order(found, v, *stylesheet, *widget, ancestors@, ctx);
        assert(cascade_order(v, *stylesheet, *widget, ancestors@, ctx));
        assert(v.take(0) =~= Seq::<MatchedRule>::empty());
    }
//@ loop 3
    invariant matched_rules@ == v, computed == apply_rules(initial(), v.take(m as int), *theme),
//@ before_loop 4
    let ghost base = computed;
    proof { assert(matched.rule.items@.take(0) =~= Seq::<RuleItem>::empty()); assert(apply_items(base, matched.rule.items@.take(0), *theme) == base); }
//@ loop 4
    invariant matched_rules@ == v, m < v.len(), matched == &v[m as int], computed == apply_items(base, matched.rule.items@.take(n as int), *theme),
//@ loop_start 4
    proof { assert(matched.rule.items@.take(n + 1).drop_last() =~= matched.rule.items@.take(n as int)); assert(matched.rule.items@.take(n + 1).last() == matched.rule.items[n as int]); }
//@ after_loop 4
    proof {
        assert(matched.rule.items@.take(matched.rule.items.len() as int) =~= matched.rule.items@);
        assert(v.take(m + 1).drop_last() =~= v.take(m as int)); assert(v.take(m + 1).last() == v[m as int]);
    }
//@ after_loop 3
    proof { assert(v.take(v.len() as int) =~= v); }
//@ end
}
