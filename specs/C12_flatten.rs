use vstd::prelude::*;

verus! {

// ---------------------------------------------------------------- types of the code
pub
//@ extract crates/tcss/src/parser/stylesheet.rs enum Selector
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct CompoundSelector
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub
//@ extract crates/tcss/src/parser/stylesheet.rs enum Combinator
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct SelectorPart
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct ComplexSelector
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct SelectorList
//@ end
/// What a declaration says is of no concern here.
#[verifier::external_body]
pub struct Declaration;
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct Rule
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs enum RuleItem
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct StyleSheet
//@ end

// ---------------------------------------------------------------- what a rule says, without the containers
/// One compound and how it relates to the next.
pub type Part = (Seq<Selector>, Combinator);
/// One selector.
pub type Chain = Seq<Part>;
pub open spec fn part(x: SelectorPart) -> Part { (x.compound.selectors@, x.combinator) }
pub open spec fn parts(p: Seq<SelectorPart>) -> Chain { Seq::new(p.len(), |i: int| part(p[i])) }
pub open spec fn chains(v: Seq<ComplexSelector>) -> Seq<Chain> { v.map_values(|x: ComplexSelector| parts(x.parts@)) }
/// A flat rule: selectors and declarations.
pub type Flat = (Seq<Chain>, Seq<Declaration>);
pub open spec fn is_decl(i: RuleItem) -> bool { i is Declaration }
pub open spec fn own(items: Seq<RuleItem>) -> Seq<Declaration> decreases items.len() {
    if items.len() == 0 { seq![] } else {
        let r = own(items.drop_last());
        match items.last() { RuleItem::Declaration(d) => r.push(d), _ => r }
    }
}
pub open spec fn flat_view(v: Seq<Rule>) -> Seq<Flat> { v.map_values(|x: Rule| (chains(x.selectors.selectors@), own(x.items@))) }
pub open spec fn only_decls(items: Seq<RuleItem>) -> bool { forall|i: int| 0 <= i < items.len() ==> #[trigger] is_decl(items[i]) }
pub open spec fn all_flat(v: Seq<Rule>) -> bool { forall|i: int| 0 <= i < v.len() ==> only_decls(#[trigger] v[i].items@) && v[i].items@.len() > 0 }

// ---------------------------------------------------------------- what nesting means
pub open spec fn continues(c: Part) -> bool { exists|i: int| 0 <= i < c.0.len() && #[trigger] c.0[i] is Parent }
pub open spec fn plain(v: Seq<Selector>) -> Seq<Selector> decreases v.len() {
    if v.len() == 0 { seq![] } else if v.last() is Parent { plain(v.drop_last()) } else { plain(v.drop_last()).push(v.last()) }
}
/// The child written out under one of the selectors above it: `&` is that selector, anything else is a descendant.
pub open spec fn under(p: Chain, c: Chain) -> Chain {
    if c.len() == 0 { p }
    else if continues(c[0]) {
        if p.len() == 0 { c.skip(1) } else {
            p.drop_last().push((p.last().0 + plain(c[0].0), if c[0].1 is None { p.last().1 } else { c[0].1 })) + c.skip(1)
        }
    } else if p.len() == 0 { c } else {
        p.drop_last().push((p.last().0, if p.last().1 is None { Combinator::Descendant } else { p.last().1 })) + c
    }
}
pub open spec fn under_each(p: Chain, c: Seq<Chain>) -> Seq<Chain> { c.map_values(|x: Chain| under(p, x)) }
/// Every selector of the list under every selector above it.
pub open spec fn every_pair(p: Seq<Chain>, c: Seq<Chain>) -> Seq<Chain> decreases p.len() {
    if p.len() == 0 { seq![] } else { every_pair(p.drop_last(), c) + under_each(p.last(), c) }
}
/// A rule written out: its own declarations, then every rule inside it, under this rule's selectors.
pub open spec fn flat(sels: Seq<Chain>, items: Vec<RuleItem>) -> Seq<Flat> decreases items, items.len() + 1 {
    head(sels, items) + inner(sels, items, items.len() as nat)
}
pub open spec fn head(sels: Seq<Chain>, items: Vec<RuleItem>) -> Seq<Flat> {
    if own(items@).len() == 0 { seq![] } else { seq![(sels, own(items@))] }
}
/// The rules among the first n items.
pub open spec fn inner(sels: Seq<Chain>, items: Vec<RuleItem>, n: nat) -> Seq<Flat> decreases items, n {
    if n == 0 || n > items.len() { seq![] } else {
        inner(sels, items, (n - 1) as nat) + match items[n - 1] {
            RuleItem::NestedRule(r) => flat(every_pair(sels, chains(r.selectors.selectors@)), r.items),
            _ => seq![],
        }
    }
}
pub open spec fn sheet(rules: Seq<Rule>) -> Seq<Flat> decreases rules.len() {
    if rules.len() == 0 { seq![] } else { sheet(rules.drop_last()) + flat(chains(rules.last().selectors.selectors@), rules.last().items) }
}

// ---------------------------------------------------------------- copies (trusted: a clone is equal)
#[verifier::external_body]
fn copy_selector(s: &Selector) -> (r: Selector) ensures r == *s { unimplemented!() }
#[verifier::external_body]
fn copy_part(s: &SelectorPart) -> (r: SelectorPart) ensures part(r) == part(*s) { unimplemented!() }
#[verifier::external_body]
fn copy_declaration(s: &Declaration) -> (r: Declaration) ensures r == *s { unimplemented!() }
fn copy_parts(v: &Vec<SelectorPart>) -> (r: Vec<SelectorPart>) ensures parts(r@) == parts(v@) {
    let mut r: Vec<SelectorPart> = Vec::new();
    for i in 0..v.len() invariant parts(r@) =~= parts(v@).take(i as int) { let ghost a = r@; r.push(copy_part(&v[i])); assert(parts(r@) =~= parts(a).push(part(v[i as int]))); }
    assert(parts(r@) =~= parts(v@));
    r
}
#[verifier::external_body]
fn copy_rule(s: &Rule) -> (r: Rule) ensures r.items == s.items, chains(r.selectors.selectors@) == chains(s.selectors.selectors@) { unimplemented!() }
#[verifier::external_body]
fn copy_list(s: &SelectorList) -> (r: SelectorList) ensures chains(r.selectors@) == chains(s.selectors@) { unimplemented!() }

// ---------------------------------------------------------------- iterator chains of the code, as loops
fn any_parent(v: &Vec<Selector>) -> (r: bool) ensures r == exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Parent {
    for i in 0..v.len() invariant forall|k: int| 0 <= k < i ==> !(#[trigger] v[k] is Parent) {
        if matches!(v[i], Selector::Parent) { return true; }
    }
    false
}
/// iter().filter(Declaration).cloned().collect()
fn own_declarations(v: &Vec<RuleItem>) -> (r: Vec<RuleItem>) ensures own(r@) == own(v@), only_decls(r@), r.len() == own(v@).len() {
    let mut r: Vec<RuleItem> = Vec::new();
    for i in 0..v.len()
        invariant own(r@) == own(v@.take(i as int)), only_decls(r@), r.len() == own(r@).len()
    {
        proof { assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); }
        let ghost old = r@;
        if let RuleItem::Declaration(d) = &v[i] {
            r.push(RuleItem::Declaration(copy_declaration(d)));
            proof { assert(r@.drop_last() =~= old); }
        }
    }
    proof { assert(v@.take(v.len() as int) =~= v@); }
    r
}
/// extend(v.iter().skip(from).cloned())
fn append_parts(to: &mut Vec<SelectorPart>, v: &Vec<SelectorPart>, from: usize)
    requires from <= v.len()
    ensures parts(final(to)@) == parts(old(to)@) + parts(v@).skip(from as int)
{
    let ghost before = parts(to@);
    for i in from..v.len() invariant parts(to@) =~= before + parts(v@).subrange(from as int, i as int) {
        let ghost a = to@;
        to.push(copy_part(&v[i]));
        assert(parts(to@) =~= parts(a).push(part(v[i as int])));
    }
    assert(parts(v@).skip(from as int) =~= parts(v@).subrange(from as int, v.len() as int));
}

// ---------------------------------------------------------------- the code
impl SelectorList {
//@ extract crates/tcss/src/parser/stylesheet.rs fn SelectorList::new
//@ ret r
//@ contract
    ensures r.selectors == selectors
//@ end
}
impl ComplexSelector {
//@ extract crates/tcss/src/parser/stylesheet.rs fn ComplexSelector::new
//@ ret r
//@ contract
    ensures r.parts == parts
//@ end
}

//@ extract crates/tcss/src/parser/flatten.rs fn combine_selectors
//@ ret r
//@ sub let has_parent_ref = first_c_part\s*\.compound\s*\.selectors\s*\.iter\(\)\s*\.any\(\|s\| matches!\(s, Selector::Parent\)\); ==> let has_parent_ref = any_parent(&first_c_part.compound.selectors);
//@ sub for p in parents \{ ==> for pi in 0..parents.len() { let p = &parents[pi];
//@ sub for c in children \{ ==> for ci in 0..children.len() { let c = &children[ci];
//@ sub for s in &first_c_part\.compound\.selectors \{ ==> for si in 0..first_c_part.compound.selectors.len() { let s = &first_c_part.compound.selectors[si];
//@ sub p\.parts\.clone\(\) ==> copy_parts(&p.parts)
//@ sub s\.clone\(\) ==> copy_selector(s)
//@ sub p_parts\.extend\(c_parts\.iter\(\)\.skip\(1\)\.cloned\(\)\); ==> append_parts(&mut p_parts, c_parts, 1);
//@ sub p_parts\.extend\(c_parts\.iter\(\)\.cloned\(\)\); ==> append_parts(&mut p_parts, c_parts, 0);
//@ contract
    ensures chains(r@) == every_pair(chains(parents@), chains(children@))
//@ loop 1
    invariant chains(combined@) == every_pair(chains(parents@).take(pi as int), chains(children@)),
//@ before_loop 2
    let ghost done = chains(combined@);
    let ghost pc = parts(p.parts@);
//@ loop 2
    invariant pc == parts(p.parts@), chains(combined@) =~= done + under_each(pc, chains(children@)).take(ci as int),
//@ loop_start 2
    let ghost earlier = combined@;
    let ghost cc = parts(children[ci as int].parts@);
    proof { assert(chains(children@)[ci as int] == cc); }
//@ before_loop 3
    let ghost first_c = first_c_part.compound.selectors@;
    proof { assert(first_c.take(0) =~= seq![]); assert(pc.last() == part(*last_p_part)); assert(plain(first_c.take(0)).len() == 0); }
//@ loop_start 3
    let ghost was = *last_p_part;
//@ loop_end 3
    proof { let v = first_c; assert(v.take(si + 1).drop_last() =~= v.take(si as int)); assert(v.take(si + 1).last() == v[si as int]);
      assert(pc.last().0 + plain(v.take(si + 1)) =~= last_p_part.compound.selectors@);
    }
//@ after_loop 3
    proof { assert(first_c.take(first_c.len() as int) =~= first_c); }
//@ loop 3
    invariant first_c == first_c_part.compound.selectors@,
        last_p_part.compound.selectors@ =~= pc.last().0 + plain(first_c.take(si as int)), last_p_part.combinator == pc.last().1,
//@ loop_end 2
    proof {
        let v = c.parts[0].compound.selectors@;
        if c.parts.len() > 0 { assert(v.take(v.len() as int) =~= v); assert(cc[0] == part(c.parts[0])); }
        assert(parts(p_parts@) =~= under(pc, cc));
        assert(chains(combined@) =~= chains(earlier).push(under(pc, cc)));
        assert(under_each(pc, chains(children@)).take(ci + 1) =~= under_each(pc, chains(children@)).take(ci as int).push(under(pc, cc)));
    }
//@ after_loop 2
    proof {
        assert(under_each(pc, chains(children@)).take(children.len() as int) =~= under_each(pc, chains(children@)));
        assert(chains(parents@).take(pi + 1).drop_last() =~= chains(parents@).take(pi as int));
    }
//@ after_loop 1
    proof { assert(chains(parents@).take(parents.len() as int) =~= chains(parents@)); }
//@ end

//@ extract crates/tcss/src/parser/flatten.rs fn flatten_rule
//@ sub let current_decls: Vec<RuleItem> = rule\s*\.items\s*\.iter\(\)\s*\.filter\(\|i\| matches!\(i, RuleItem::Declaration\(_\)\)\)\s*\.cloned\(\)\s*\.collect\(\); ==> let current_decls: Vec<RuleItem> = own_declarations(&rule.items);
//@ sub rule\.selectors\.clone\(\) ==> copy_list(&rule.selectors)
//@ sub for item in &rule\.items \{ ==> for it in 0..rule.items.len() { let item = &rule.items[it];
//@ sub nested\.clone\(\) ==> copy_rule(nested)
//@ contract
    requires parent_selectors is Some ==> chains(parent_selectors->Some_0@) == chains(rule.selectors.selectors@)
    ensures all_flat(old(output)@) ==> all_flat(final(output)@),
        flat_view(final(output)@) == flat_view(old(output)@) + flat(chains(rule.selectors.selectors@), rule.items)
    decreases rule.items
//@ start
    let ghost before = flat_view(output@);
    let ghost sels = chains(rule.selectors.selectors@);
//@ before_loop 1
    proof { assert(flat_view(output@) =~= before + head(sels, rule.items) + inner(sels, rule.items, 0)); }
//@ loop 1
    invariant
        sels == chains(rule.selectors.selectors@), parent_selectors is Some ==> chains(parent_selectors->Some_0@) == sels,
        all_flat(old(output)@) ==> all_flat(output@),
        flat_view(output@) =~= before + head(sels, rule.items) + inner(sels, rule.items, it as nat),
//@ end

//@ extract crates/tcss/src/parser/flatten.rs fn flatten_stylesheet
//@ ret r
//@ sub for rule in raw_rules \{ ==> for k in 0..raw_rules.len() { let rule = &raw_rules[k];
//@ sub flatten_rule\(&rule, ==> flatten_rule(rule,
//@ contract
    ensures all_flat(r.rules@), flat_view(r.rules@) == sheet(raw_rules@)
//@ loop 1
    invariant all_flat(flat_rules@), flat_view(flat_rules@) =~= sheet(raw_rules@.take(k as int)), 
//@ loop_end 1
    proof { assert(raw_rules@.take(k + 1).drop_last() =~= raw_rules@.take(k as int)); }
//@ after_loop 1
    proof { assert(raw_rules@.take(raw_rules.len() as int) =~= raw_rules@); }
//@ end
}
