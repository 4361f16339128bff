use vstd::prelude::*;

verus! {

// ---------------------------------------------------------------- types of the code
pub
//@ extract crates/tcss/src/parser/stylesheet.rs enum Selector
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct CompoundSelector
//@ end
#[derive(Clone, Copy)]
pub
//@ extract crates/tcss/src/parser/stylesheet.rs enum Combinator
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct SelectorPart
//@ end
pub
//@ extract crates/tcss/src/parser/stylesheet.rs struct ComplexSelector
//@ end
pub
//@ extract crates/tcss/src/parser/cascade.rs struct WidgetMeta
//@ end
#[derive(Clone, Copy)]
//@ extract crates/tcss/src/parser/cascade.rs struct SelectorContext
//@ sub (is_\w+): ==> pub \1:
//@ sub struct ==> pub struct
//@ end

// bitflags type (macro generated): four flags and the containment test
#[derive(Clone, Copy)]
pub struct WidgetStates { pub bits: u16 }
impl WidgetStates {
    pub const FOCUS: WidgetStates = WidgetStates { bits: 1 };
    pub const HOVER: WidgetStates = WidgetStates { bits: 2 };
    pub const ACTIVE: WidgetStates = WidgetStates { bits: 4 };
    pub const DISABLED: WidgetStates = WidgetStates { bits: 8 };
    pub open spec fn has(self, f: WidgetStates) -> bool { self.bits & f.bits == f.bits }
    pub fn contains(&self, f: WidgetStates) -> (r: bool) ensures r == self.has(f) { self.bits & f.bits == f.bits }
}

// ---------------------------------------------------------------- strings (trusted: equality of strings is equality of their text)
#[verifier::external_body]
fn str_is(a: &str, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b.as_str() }
#[verifier::external_body]
fn id_is(a: &Option<String>, b: &String) -> (r: bool)
    ensures r == (a is Some && a->Some_0@ == b@)
{ a.as_ref() == Some(b) }
fn any_is(v: &Vec<&'static str>, b: &String) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == b@
{
    for i in 0..v.len()
        invariant forall|k: int| 0 <= k < i ==> #[trigger] v[k]@ != b@,
    { if str_is(v[i], b) { return true; } }
    false
}
fn has_string(v: &Vec<String>, b: &String) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == b@
{
    for i in 0..v.len()
        invariant forall|k: int| 0 <= k < i ==> #[trigger] v[k]@ != b@,
    { if str_is(v[i].as_str(), b) { return true; } }
    false
}
fn any_true(v: &Vec<bool>) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < v.len() && #[trigger] v[i]
{
    for i in 0..v.len()
        invariant forall|k: int| 0 <= k < i ==> !#[trigger] v[k],
    { if v[i] { return true; } }
    false
}
pub axiom fn axiom_str_ext()
    ensures forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b;

// ---------------------------------------------------------------- the meaning of selectors
pub open spec fn state_ok(w: WidgetMeta, n: Seq<char>, ctx: SelectorContext) -> bool {
    if n == "focus"@ { w.states.has(WidgetStates::FOCUS) }
    else if n == "hover"@ { w.states.has(WidgetStates::HOVER) }
    else if n == "active"@ { w.states.has(WidgetStates::ACTIVE) }
    else if n == "disabled"@ { w.states.has(WidgetStates::DISABLED) }
    else if n == "dark"@ { ctx.is_dark }
    else if n == "light"@ { !ctx.is_dark }
    else if n == "ansi"@ { ctx.is_ansi }
    else if n == "nocolor"@ { ctx.is_nocolor }
    else { false }
}
pub open spec fn sel_ok(w: WidgetMeta, s: Selector, ctx: SelectorContext) -> bool {
    match s {
        Selector::Type(name) => if w.type_names.len() == 0 { w.type_name@ == name@ }
            else { exists|i: int| 0 <= i < w.type_names.len() && #[trigger] w.type_names[i]@ == name@ },
        Selector::Class(c) => exists|i: int| 0 <= i < w.classes.len() && #[trigger] w.classes[i]@ == c@,
        Selector::Id(i) => w.id is Some && w.id->Some_0@ == i@,
        Selector::Universal => true,
        Selector::PseudoClass(n) => state_ok(w, n@, ctx),
        Selector::Parent => false,
        Selector::Attribute(_, _) => false,
    }
}
pub open spec fn comp_ok(w: WidgetMeta, c: CompoundSelector, ctx: SelectorContext) -> bool {
    forall|i: int| 0 <= i < c.selectors.len() ==> #[trigger] sel_ok(w, c.selectors[i], ctx)
}
/// the first n parts can be assigned to ancestors, the innermost of them to ancestor `from` (child) or to it or a later one (descendant)
pub open spec fn assignable(parts: Seq<SelectorPart>, n: int, anc: Seq<WidgetMeta>, from: int, ctx: SelectorContext) -> bool
    decreases n
{
    if n <= 0 { true } else {
        match parts[n - 1].combinator {
            Combinator::Child => from < anc.len() && comp_ok(anc[from], parts[n - 1].compound, ctx) && assignable(parts, n - 1, anc, from + 1, ctx),
            Combinator::Descendant | Combinator::None => exists|i: int| from <= i < anc.len() && comp_ok(#[trigger] anc[i], parts[n - 1].compound, ctx)
                && assignable(parts, n - 1, anc, i + 1, ctx),
            Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
        }
    }
}
pub open spec fn hit(parts: Seq<SelectorPart>, n: int, anc: Seq<WidgetMeta>, i: int, ctx: SelectorContext) -> bool
{
    0 < n && i < anc.len() && comp_ok(anc[i], parts[n - 1].compound, ctx) && assignable(parts, n - 1, anc, i + 1, ctx)
}
pub open spec fn complex_ok(w: WidgetMeta, c: ComplexSelector, anc: Seq<WidgetMeta>, ctx: SelectorContext) -> bool {
    &&& c.parts.len() > 0
    &&& comp_ok(w, c.parts[c.parts.len() - 1].compound, ctx)
    &&& assignable(c.parts@, c.parts.len() - 1, anc, 0, ctx)
}
/// some reached position works for the first n parts
pub open spec fn some_reached(reached: Seq<bool>, parts: Seq<SelectorPart>, n: int, anc: Seq<WidgetMeta>, ctx: SelectorContext) -> bool {
    exists|j: int| 0 <= j < reached.len() && reached[j] && #[trigger] assignable(parts, n, anc, j, ctx)
}
pub open spec fn allowed_at(k: Combinator, reached: Seq<bool>, i: int) -> bool {
    match k {
        Combinator::Child => reached[i],
        Combinator::Descendant | Combinator::None => exists|j: int| 0 <= j <= i && #[trigger] reached[j],
        Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
    }
}
pub open spec fn next_ok(next: Seq<bool>, reached: Seq<bool>, p: SelectorPart, anc: Seq<WidgetMeta>, upto: int, ctx: SelectorContext) -> bool {
    &&& !next[0]
    &&& forall|i: int| 0 <= i < upto ==> #[trigger] next[i + 1] == (allowed_at(p.combinator, reached, i) && comp_ok(anc[i], p.compound, ctx))
    &&& forall|i: int| upto <= i < anc.len() ==> !#[trigger] next[i + 1]
}
proof fn lemma_step(next: Seq<bool>, reached: Seq<bool>, parts: Seq<SelectorPart>, n: int, anc: Seq<WidgetMeta>, ctx: SelectorContext)
    requires 0 < n <= parts.len(), next.len() == anc.len() + 1, reached.len() == anc.len() + 1,
        next_ok(next, reached, parts[n - 1], anc, anc.len() as int, ctx),
    ensures some_reached(next, parts, n - 1, anc, ctx) == some_reached(reached, parts, n, anc, ctx),
{
    let p = parts[n - 1];
    if some_reached(next, parts, n - 1, anc, ctx) {
        let k = choose|k: int| 0 <= k < next.len() && next[k] && #[trigger] assignable(parts, n - 1, anc, k, ctx);
        let i = k - 1;
        assert(next[i + 1]);
        assert(hit(parts, n, anc, i, ctx));
        if p.combinator is Child { assert(assignable(parts, n, anc, i, ctx)); } else {
            assert(p.combinator is Descendant || p.combinator is None);
            assert(exists|j: int| 0 <= j <= i && #[trigger] reached[j]);
                let j = choose|j: int| 0 <= j <= i && #[trigger] reached[j];
                assert(assignable(parts, n, anc, j, ctx));
        }
    }
    if some_reached(reached, parts, n, anc, ctx) {
        let j = choose|j: int| 0 <= j < reached.len() && reached[j] && #[trigger] assignable(parts, n, anc, j, ctx);
        if p.combinator is Child { assert(hit(parts, n, anc, j, ctx)); assert(next[j + 1]); assert(assignable(parts, n - 1, anc, j + 1, ctx)); } else {
            assert(p.combinator is Descendant || p.combinator is None);
                let i = choose|i: int| j <= i < anc.len() && comp_ok(#[trigger] anc[i], parts[n - 1].compound, ctx) && assignable(parts, n - 1, anc, i + 1, ctx);
                assert(reached[j]);
                assert(allowed_at(p.combinator, reached, i));
                assert(next[i + 1]); assert(assignable(parts, n - 1, anc, i + 1, ctx));
        }
    }
}

// ---------------------------------------------------------------- the code
impl WidgetMeta {
//@ extract crates/tcss/src/parser/cascade.rs fn WidgetMeta::matches_selector
//@ ret r
//@ sub self\.type_name == \*name ==> str_is(self.type_name, name)
//@ sub self\.type_names\.iter\(\)\.any\(\|t\| t == name\) ==> any_is(&self.type_names, name)
//@ sub self\.id\.as_ref\(\) == Some\(id\) ==> id_is(&self.id, id)
//@ sub self\.classes\.contains\(class\) ==> has_string(&self.classes, class)
//@ contract
    ensures r == sel_ok(*self, *selector, *ctx)
//@ start
    proof { axiom_str_ext(); reveal_strlit("focus"); reveal_strlit("hover"); reveal_strlit("active"); reveal_strlit("disabled");
        reveal_strlit("dark"); reveal_strlit("light"); reveal_strlit("ansi"); reveal_strlit("nocolor"); }
//@ end

//@ extract crates/tcss/src/parser/cascade.rs fn WidgetMeta::matches_compound
//@ ret r
//@ sub compound\s*\.selectors\s*\.iter\(\)\s*\.all\(\|s\| self\.matches_selector\(s, ctx\)\) ==> for i in 0..compound.selectors.len() { let s = &compound.selectors[i]; if !self.matches_selector(s, ctx) { return false; } } true
//@ contract
    ensures r == comp_ok(*self, *compound, *ctx)
//@ loop 1
    invariant forall|k: int| 0 <= k < i ==> #[trigger] sel_ok(*self, compound.selectors[k], *ctx),
//@ end

//@ extract crates/tcss/src/parser/cascade.rs fn WidgetMeta::matches_complex
//@ ret r
//@ sub for part_idx in \(0\.\.last\)\.rev\(\) \{ ==> let mut part_idx = last; while part_idx > 0 { part_idx -= 1;
//@ sub for \(idx, ancestor\) in ancestors\.iter\(\)\.enumerate\(\) \{ ==> for idx in 0..ancestors.len() { let ancestor = &ancestors[idx];
//@ sub reached\.contains\(&true\) ==> any_true(&reached)
//@ contract
    requires ancestors.len() < usize::MAX
    ensures r == complex_ok(*self, *complex, ancestors@, *ctx)
//@ before_loop 1
    proof {
        assert(forall|j: int| 0 <= j < reached.len() && reached[j] ==> j == 0);
        assert(reached[0]);
        assert(some_reached(reached@, parts@, last as int, ancestors@, *ctx) == assignable(parts@, last as int, ancestors@, 0, *ctx));
    }
//@ loop 1
    invariant part_idx <= last < parts.len(), reached.len() == ancestors.len() + 1, ancestors.len() < usize::MAX,
        some_reached(reached@, parts@, part_idx as int, ancestors@, *ctx) == assignable(parts@, last as int, ancestors@, 0, *ctx),
    decreases part_idx
//@ before_loop 2
    let ghost old_reached = reached@;
//@ loop 2
    invariant part_idx < last < parts.len(), part == &parts[part_idx as int], reached.len() == ancestors.len() + 1, next.len() == ancestors.len() + 1,
        reached@ == old_reached, ancestors.len() < usize::MAX,
        part.combinator is Child || allowed == (idx > 0 && allowed_at(part.combinator, reached@, idx - 1)),
        next_ok(next@, reached@, *part, ancestors@, idx as int, *ctx),
//@ after_loop 2
    proof { lemma_step(next@, reached@, parts@, part_idx + 1, ancestors@, *ctx); }
//@ after_loop 1
    proof {
        assert(forall|j: int| #![trigger reached[j]] 0 <= j < reached.len() ==> assignable(parts@, 0, ancestors@, j, *ctx));
    }
//@ end
}
}
