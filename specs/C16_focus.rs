use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- what a widget tree is
/// the shape of a tree of widgets: which take part in the layout and which can take focus
pub struct Tree { pub live: bool, pub takes: bool, pub id: Option<Seq<char>>, pub kids: Seq<Tree> }
/// how many widgets can take focus: hidden children and all within them do not count
pub open spec fn count(t: Tree) -> int decreases t, t.kids.len() + 1 { (if t.takes { 1int } else { 0int }) + counts(t, t.kids.len() as int) }
pub open spec fn counts(t: Tree, n: int) -> int decreases t, n { if n <= 0 || n > t.kids.len() { 0 } else { counts(t, n - 1) + part(t, n - 1) } }
pub open spec fn part(t: Tree, k: int) -> int decreases t, k { if 0 <= k < t.kids.len() && t.kids[k].live { count(t.kids[k]) } else { 0 } }
/// where the n-th of them (in document order) is
pub open spec fn path_to(t: Tree, n: int) -> Seq<int> decreases t, t.kids.len() + 1 { if t.takes && n == 0 { seq![] } else { down(t, if t.takes { n - 1 } else { n }, 0) } }
pub open spec fn down(t: Tree, n: int, k: int) -> Seq<int> decreases t, t.kids.len() - k {
    if k < 0 || k >= t.kids.len() { seq![] } else if t.kids[k].live && n < count(t.kids[k]) { seq![k] + path_to(t.kids[k], n) } else { down(t, n - part(t, k), k + 1) }
}
/// the widget at a path
pub open spec fn at(t: Tree, p: Seq<int>) -> Tree decreases p.len() { if p.len() == 0 || p[0] < 0 || p[0] >= t.kids.len() { t } else { at(t.kids[p[0]], p.drop_first()) } }
/// the path leads to a widget that can take focus, through widgets none of which is hidden
pub open spec fn reach(t: Tree, p: Seq<int>) -> bool decreases p.len() { if p.len() == 0 { t.takes } else { 0 <= p[0] < t.kids.len() && t.kids[p[0]].live && reach(t.kids[p[0]], p.drop_first()) } }
/// document order: a widget comes before what is in it, and that before its later siblings
pub open spec fn before(p: Seq<int>, q: Seq<int>) -> bool decreases p.len() { q.len() > 0 && (p.len() == 0 || p[0] < q[0] || (p[0] == q[0] && before(p.drop_first(), q.drop_first()))) }
proof fn lemma_count(t: Tree, n: int) ensures 0 <= counts(t, n), 0 <= count(t), n <= t.kids.len() ==> counts(t, n) <= count(t), 0 <= n < t.kids.len() ==> part(t, n) >= 0 decreases t, n
{
    if n > 0 && n <= t.kids.len() { lemma_count(t, n - 1); if t.kids[n - 1].live { lemma_count(t.kids[n - 1], t.kids[n - 1].kids.len() as int); } }
    lemma_counts(t, n, t.kids.len() as int);
    if 0 <= n < t.kids.len() { lemma_count(t.kids[n], t.kids[n].kids.len() as int); }
}
proof fn lemma_counts(t: Tree, n: int, m: int) requires m <= t.kids.len(), ensures 0 <= counts(t, m), n <= m ==> counts(t, n) <= counts(t, m) decreases t, m
{ if m > 0 { lemma_counts(t, n, m - 1); lemma_kid(t, m - 1); } }
proof fn lemma_kid(t: Tree, k: int) requires 0 <= k < t.kids.len(), ensures count(t.kids[k]) >= 0, part(t, k) >= 0 decreases t, 0int { let c = t.kids[k]; lemma_counts(c, 0, c.kids.len() as int); }
/// the n-th widget lies in child k when n falls into the range of that child
proof fn lemma_down(t: Tree, j: int, k: int, m: int)
    requires 0 <= j <= k < t.kids.len(), t.kids[k].live, 0 <= m < count(t.kids[k]),
    ensures down(t, counts(t, k) - counts(t, j) + m, j) == seq![k] + path_to(t.kids[k], m) decreases k - j
{ lemma_counts(t, j + 1, k); lemma_counts(t, j, j); lemma_kid(t, j); if j < k { assert(counts(t, j + 1) == counts(t, j) + part(t, j)); lemma_down(t, j + 1, k, m); } }
/// the child the n-th widget is in
proof fn lemma_find(t: Tree, n: int, j: int) -> (k: int)
    requires 0 <= j <= t.kids.len(), counts(t, j) <= n < counts(t, t.kids.len() as int),
    ensures j <= k < t.kids.len(), t.kids[k].live, counts(t, k) <= n < counts(t, k) + count(t.kids[k]), counts(t, k + 1) == counts(t, k) + count(t.kids[k]) decreases t.kids.len() - j
{ if j < t.kids.len() { assert(counts(t, j + 1) == counts(t, j) + part(t, j)); } if j == t.kids.len() { j } else if n < counts(t, j + 1) { j } else { lemma_find(t, n, j + 1) } }
proof fn lemma_own(t: Tree) -> (o: int) ensures o == (if t.takes { 1int } else { 0int }), count(t) == o + counts(t, t.kids.len() as int) { if t.takes { 1 } else { 0 } }
/// THE PROPERTY (places): the n-th widget can take focus, the widgets are numbered in document order, and each has its number
proof fn theorem_reach(t: Tree, n: int) requires 0 <= n < count(t), ensures reach(t, path_to(t, n)) decreases t
{
    let o = lemma_own(t);
    if !(t.takes && n == 0) {
        let k = lemma_find(t, n - o, 0); let m = n - o - counts(t, k);
        lemma_down(t, 0, k, m); theorem_reach(t.kids[k], m);
        assert((seq![k] + path_to(t.kids[k], m)).drop_first() =~= path_to(t.kids[k], m));
    }
}
proof fn theorem_order(t: Tree, n: int, m: int) requires 0 <= n < m < count(t), ensures before(path_to(t, n), path_to(t, m)) decreases t
{
    let o = lemma_own(t);
    let k = lemma_find(t, m - o, 0); let b = m - o - counts(t, k); lemma_down(t, 0, k, b);
    let q = seq![k] + path_to(t.kids[k], b); assert(q.drop_first() =~= path_to(t.kids[k], b));
    if !(t.takes && n == 0) {
        let j = lemma_find(t, n - o, 0); let a = n - o - counts(t, j); lemma_down(t, 0, j, a);
        let p = seq![j] + path_to(t.kids[j], a); assert(p.drop_first() =~= path_to(t.kids[j], a));
        if j > k { lemma_counts(t, k + 1, j); }
        if j == k { theorem_order(t.kids[k], a, b); }
    }
}
proof fn theorem_numbered(t: Tree, p: Seq<int>) -> (n: int) requires reach(t, p), ensures 0 <= n < count(t), path_to(t, n) == p decreases p.len()
{
    let o = lemma_own(t); lemma_counts(t, 0, t.kids.len() as int);
    if p.len() == 0 { assert(p =~= seq![]); 0 } else {
        let k = p[0]; let m = theorem_numbered(t.kids[k], p.drop_first());
        lemma_counts(t, k + 1, t.kids.len() as int); lemma_counts(t, 0, k); lemma_down(t, 0, k, m);
        assert(seq![k] + p.drop_first() =~= p); assert(counts(t, k + 1) == counts(t, k) + part(t, k)); assert(part(t, k) == count(t.kids[k])); assert(counts(t, 0) == 0);
        o + counts(t, k) + m
    }
}
/// THE PROPERTY (moves): n moves forward from anywhere visit each of n places once; back undoes forward
pub open spec fn fore(i: int, n: int) -> int { (i + 1) % n }
pub open spec fn back(i: int, n: int) -> int { if i <= 0 { n - 1 } else { if i < n { i - 1 } else { n - 1 } } }
pub open spec fn fores(i: int, n: int, k: int) -> int decreases k { if k <= 0 { i } else { fore(fores(i, n, k - 1), n) } }
pub open spec fn backs(i: int, n: int, k: int) -> int decreases k { if k <= 0 { i } else { back(backs(i, n, k - 1), n) } }
proof fn theorem_around(i: int, n: int, k: int) requires n > 0, 0 <= i < n, 0 <= k <= n,
    ensures fores(i, n, k) == if i + k < n { i + k } else { i + k - n }, backs(i, n, k) == if i >= k { i - k } else { i - k + n }, fores(i, n, n) == i || k < n, back(fore(i, n), n) == i, fore(back(i, n), n) == i decreases k
{
    if k > 0 { theorem_around(i, n, k - 1); let x = fores(i, n, k - 1); lemma_mod(x, n); }
    lemma_mod(i, n); lemma_mod(back(i, n), n);
}
proof fn lemma_mod(x: int, n: int) requires 0 <= x < n, ensures fore(x, n) == if x + 1 < n { x + 1 } else { 0 }
{ if x + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((x + 1) as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } }

// ---------------------------------------------------------------- the contract every widget keeps
#[verifier::external_body]
pub struct Node { x: u8 }
impl Node {
    pub uninterp spec fn tree(&self) -> Tree;
    /// the widget at a path below is marked as focused
    pub uninterp spec fn lit(&self, p: Seq<int>) -> bool;
    #[verifier::external_body]
    fn is_focusable(&self) -> (r: bool) ensures r == self.tree().takes { unimplemented!() }
    #[verifier::external_body]
    fn participates_in_layout(&self) -> (r: bool) ensures r == self.tree().live { unimplemented!() }
    #[verifier::external_body]
    fn child_count(&self) -> (r: usize) ensures r == self.tree().kids.len() { unimplemented!() }
    #[verifier::external_body]
    fn get_child_mut(&mut self, index: usize) -> (r: Option<&mut Node>)
        ensures r is Some == (index < old(self).tree().kids.len()),
          match r {
            Some(c) => c.tree() == old(self).tree().kids[index as int] && final(self).tree() == (Tree { kids: old(self).tree().kids.update(index as int, final(c).tree()), ..old(self).tree() })
                && (forall|p: Seq<int>| #[trigger] c.lit(p) == old(self).lit(seq![index as int] + p))
                && (forall|p: Seq<int>| #[trigger] final(self).lit(p) == if p.len() > 0 && p[0] == index { final(c).lit(p.drop_first()) } else { old(self).lit(p) }),
            None => *final(self) == *old(self),
          }
    { unimplemented!() }
    #[verifier::external_body]
    fn count_focusable(&self) -> (r: usize) ensures r == count(self.tree()) { unimplemented!() }
    #[verifier::external_body]
    fn clear_focus(&mut self) ensures final(self).tree() == old(self).tree(), forall|p: Seq<int>| !#[trigger] final(self).lit(p) { unimplemented!() }
    #[verifier::external_body]
    fn focus_nth(&mut self, n: usize) -> (r: bool)
        requires n < count(old(self).tree()),
        ensures r, final(self).tree() == old(self).tree(), forall|p: Seq<int>| #[trigger] final(self).lit(p) == (old(self).lit(p) || p == path_to(old(self).tree(), n as int)) { unimplemented!() }
    /// on_event and the like: the widget is called with what it is
    #[verifier::external_body]
    fn visit(&mut self) -> (r: Visit) ensures r.who() == *old(self) { unimplemented!() }
}
#[verifier::external_body] pub struct Visit { x: u8 }
impl Visit { pub uninterp spec fn who(&self) -> Node; }
#[verifier::external_body]
fn has_id(w: &Node, id: &str) -> (r: bool) ensures r == (w.tree().id == Some(id@)) { unimplemented!() }
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
proof fn lemma_same_kid(t: Tree, k: int) requires 0 <= k < t.kids.len(), ensures (Tree { kids: t.kids.update(k, t.kids[k]), ..t }) == t { assert(t.kids.update(k, t.kids[k]) =~= t.kids); }
proof fn lemma_lit_same(p: Seq<int>, k: int) requires p.len() > 0, p[0] == k, ensures seq![k] + p.drop_first() == p { assert(seq![k] + p.drop_first() =~= p); }

// ---------------------------------------------------------------- the tree of widgets
pub
//@ extract crates/textual/src/tree.rs struct FocusPath
//@ sub indices: ==> pub indices:
//@ end
pub
//@ extract crates/textual/src/tree.rs struct WidgetTree
//@ sub Box<dyn Widget<M>> ==> Node
//@ sub WidgetTree<M> ==> WidgetTree
//@ sub (root|focus_path|current_focus_index): ==> pub \1:
//@ end
impl FocusPath {
//@ extract crates/textual/src/tree.rs fn FocusPath::push
//@ contract
    ensures final(self).indices@ == old(self).indices@.push(index),
//@ end
//@ extract crates/textual/src/tree.rs fn FocusPath::pop
//@ ret r
//@ contract
    ensures old(self).indices@.len() > 0 ==> final(self).indices@ == old(self).indices@.drop_last(),
//@ end
//@ extract crates/textual/src/tree.rs fn FocusPath::clear
//@ contract
    ensures final(self).indices@ == Seq::<usize>::empty(),
//@ end
//@ extract crates/textual/src/tree.rs fn FocusPath::new
//@ ret r
//@ contract
    ensures r.indices@ == Seq::<usize>::empty(),
//@ end
}
//@ extract crates/textual/src/tree.rs fn find_focus_path_recursive
//@ ret r
//@ sub SIG:&mut dyn Widget<M> ==> &mut Node
//@ sub SIG:<M> ==> 
//@ contract
    requires old(remaining) < usize::MAX,
    ensures final(widget).tree() == old(widget).tree(), forall|p: Seq<int>| #[trigger] final(widget).lit(p) == old(widget).lit(p),
        r == (*old(remaining) < count(old(widget).tree())),
        r ==> ints(final(path).indices@) == ints(old(path).indices@) + path_to(old(widget).tree(), *old(remaining) as int),
        !r ==> final(path).indices@ == old(path).indices@ && *final(remaining) == *old(remaining) - count(old(widget).tree()),
    decreases old(widget).tree()
//@ start
    let ghost t = widget.tree(); let ghost n = *remaining as int; let ghost own = lemma_own(t); let ghost w0 = *widget; let ghost p0 = path.indices@;
    proof { assert(ints(p0) + seq![] =~= ints(p0)); lemma_counts(t, 0, t.kids.len() as int); }
//@ loop 1
    invariant widget.tree() == t, t == w0.tree(), forall|p: Seq<int>| #[trigger] widget.lit(p) == w0.lit(p), child_count == t.kids.len(), path.indices@ == p0,
        n >= own + counts(t, i as int), *remaining == n - own - counts(t, i as int), own == (if t.takes { 1int } else { 0int }), n < usize::MAX,
        p0 == old(path).indices@, n == *old(remaining), *old(widget) == w0,
//@ loop_start 1
    let ghost k = i as int; let ghost was = *widget; let ghost m = *remaining as int;
    proof {
        lemma_kid(t, k); lemma_same_kid(t, k); lemma_counts(t, k + 1, t.kids.len() as int); lemma_counts(t, 0, k); lemma_own(t);
        assert forall|p: Seq<int>| p.len() > 0 && p[0] == k implies #[trigger] w0.lit(p) == was.lit(seq![k] + p.drop_first()) by { lemma_lit_same(p, k); assert(was.lit(p) == w0.lit(p)); }
        if t.kids[k].live && m < count(t.kids[k]) { lemma_down(t, 0, k, m); assert(ints(p0.push(i)) + path_to(t.kids[k], m) =~= ints(p0) + (seq![k] + path_to(t.kids[k], m))); }
    }
//@ loop_end 1
    proof { assert(p0.push(i).drop_last() =~= p0); assert(counts(t, k + 1) == counts(t, k) + part(t, k)); }
//@ end


//@ extract crates/textual/src/tree.rs fn find_focus_index_by_id
//@ ret r
//@ sub SIG:&mut dyn Widget<M> ==> &mut Node
//@ sub SIG:<M> ==> 
//@ sub widget\.id\(\) == Some\(id\) ==> has_id(widget, id)
//@ contract
    requires *old(index) + seen(old(widget).tree()) <= usize::MAX,
    ensures final(widget).tree() == old(widget).tree(), forall|p: Seq<int>| #[trigger] final(widget).lit(p) == old(widget).lit(p),
        r is None ==> *final(index) == *old(index) + seen(old(widget).tree()) && forall|n: int| 0 <= n < seen(old(widget).tree()) ==> !#[trigger] named(old(widget).tree(), n, id@),
        r is Some ==> *old(index) <= r->Some_0 < *old(index) + seen(old(widget).tree()) && first_named(old(widget).tree(), r->Some_0 - *old(index), id@),
    decreases old(widget).tree()
//@ start
    let ghost t = widget.tree(); let ghost n = *index as int; let ghost own = lemma_own(t); let ghost w0 = *widget;
    proof { lemma_counts(t, 0, t.kids.len() as int); assert(counts(t, 0) == 0); }
//@ loop 1
    invariant widget.tree() == t, t == w0.tree(), t.live, *index <= usize::MAX, forall|p: Seq<int>| #[trigger] widget.lit(p) == w0.lit(p), child_count == t.kids.len(), *old(widget) == w0, *old(index) == n,
        own == (if t.takes { 1int } else { 0int }), *index == n + own + counts(t, i as int), n + count(t) <= usize::MAX,
        forall|m: int| 0 <= m < own + counts(t, i as int) ==> !#[trigger] named(t, m, id@),
//@ loop_start 1
    let ghost k = i as int; let ghost was = *widget; let ghost b = own + counts(t, k);
    proof {
        lemma_kid(t, k); lemma_same_kid(t, k); lemma_counts(t, k + 1, t.kids.len() as int); lemma_counts(t, 0, k); lemma_own(t); assert(counts(t, k + 1) == counts(t, k) + part(t, k));
        assert forall|p: Seq<int>| p.len() > 0 && p[0] == k implies #[trigger] w0.lit(p) == was.lit(seq![k] + p.drop_first()) by { lemma_lit_same(p, k); assert(was.lit(p) == w0.lit(p)); }
        if t.kids[k].live { assert forall|m: int| b <= m < b + count(t.kids[k]) implies #[trigger] named(t, m, id@) == named(t.kids[k], m - b, id@) by {
            lemma_down(t, 0, k, m - b); let q = path_to(t.kids[k], m - b); assert((seq![k] + q).drop_first() =~= q);
        }
        assert forall|m: int| 0 <= m < count(t.kids[k]) implies #[trigger] named(t.kids[k], m, id@) == named(t, m + b, id@) by { assert(named(t, m + b, id@) == named(t.kids[k], m + b - b, id@)); }
        }
    }
//@ end
/// how many widgets of a subtree take focus, none when it is hidden
pub open spec fn seen(t: Tree) -> int { if t.live { count(t) } else { 0 } }
/// the n-th widget that takes focus has the id
pub open spec fn named(t: Tree, n: int, id: Seq<char>) -> bool { at(t, path_to(t, n)).id == Some(id) }
/// exactly the n-th widget is focused and keys go there
pub open spec fn focused_on(w: WidgetTree, n: int) -> bool {
    0 <= n < count(w.root.tree()) && w.current_focus_index == n && ints(w.focus_path.indices@) == path_to(w.root.tree(), n) && forall|p: Seq<int>| #[trigger] w.root.lit(p) == (p == path_to(w.root.tree(), n))
}
pub open spec fn nowhere(w: WidgetTree) -> bool { w.current_focus_index == 0 && w.focus_path.indices@.len() == 0 && forall|p: Seq<int>| !#[trigger] w.root.lit(p) }
impl WidgetTree {
//@ extract crates/textual/src/tree.rs fn WidgetTree::focusable_count
//@ ret r
//@ contract
    ensures r == count(self.root.tree()),
//@ end
//@ extract crates/textual/src/tree.rs fn WidgetTree::set_focus_index
//@ ret r
//@ contract
    requires count(old(self).root.tree()) < usize::MAX,
    ensures final(self).root.tree() == old(self).root.tree(), r == (focus_index < count(old(self).root.tree())),
        r ==> focused_on(*final(self), focus_index as int),
        !r ==> if count(old(self).root.tree()) == 0 { nowhere(*final(self)) } else { *final(self) == *old(self) },
//@ end
//@ extract crates/textual/src/tree.rs fn WidgetTree::update_focus
//@ contract
    requires focus_index < usize::MAX,
    ensures final(self).root.tree() == old(self).root.tree(), forall|p: Seq<int>| #[trigger] final(self).root.lit(p) == old(self).root.lit(p), final(self).current_focus_index == focus_index,
        focus_index < count(old(self).root.tree()) ==> ints(final(self).focus_path.indices@) == path_to(old(self).root.tree(), focus_index as int),
//@ sub self\.root\.as_mut\(\) ==> &mut self.root
//@ start
    let ghost e: Seq<usize> = seq![];
    proof { assert(ints(e) =~= seq![]); assert forall|p: Seq<int>| #[trigger] (ints(e) + p) == p by { assert(ints(e) + p =~= p); } }
//@ end
//@ extract crates/textual/src/tree.rs fn WidgetTree::focus_next
//@ ret r
//@ contract
    requires count(old(self).root.tree()) < usize::MAX, old(self).current_focus_index < usize::MAX,
    ensures final(self).root.tree() == old(self).root.tree(),
        count(old(self).root.tree()) == 0 ==> r is None && *final(self) == *old(self),
        count(old(self).root.tree()) > 0 ==> r is Some && r->Some_0 == fore(old(self).current_focus_index as int, count(old(self).root.tree())) && focused_on(*final(self), r->Some_0 as int),
//@ end
//@ extract crates/textual/src/tree.rs fn WidgetTree::focus_previous
//@ ret r
//@ sub? self\.current_focus_index\.min\((\w+)\) ==> lesser(self.current_focus_index, \1)
//@ contract
    requires count(old(self).root.tree()) < usize::MAX,
    ensures final(self).root.tree() == old(self).root.tree(),
        count(old(self).root.tree()) == 0 ==> r is None && *final(self) == *old(self),
        count(old(self).root.tree()) > 0 ==> r is Some && r->Some_0 == back(old(self).current_focus_index as int, count(old(self).root.tree())) && focused_on(*final(self), r->Some_0 as int),
//@ end
//@ extract crates/textual/src/tree.rs fn WidgetTree::focus_by_id
//@ ret r
//@ sub self\.root\.as_mut\(\) ==> &mut self.root
//@ contract
    requires count(old(self).root.tree()) < usize::MAX, old(self).root.tree().live,
    ensures final(self).root.tree() == old(self).root.tree(),
        r ==> exists|n: int| #[trigger] first_named(old(self).root.tree(), n, id@) && focused_on(*final(self), n),
        !r ==> (forall|n: int| 0 <= n < count(old(self).root.tree()) ==> !#[trigger] named(old(self).root.tree(), n, id@)) && forall|p: Seq<int>| #[trigger] final(self).root.lit(p) == old(self).root.lit(p),
//@ end
//@ extract crates/textual/src/tree.rs fn WidgetTree::with_focused
//@ ret r
//@ sub SIG:<F, R> ==> 
//@ sub SIG:f: F\) ==> )
//@ sub SIG:Option<R> ==> Option<Visit>
//@ sub SIG:where\s+F: FnOnce\(&mut dyn Widget<M>\) -> R, ==> 
//@ sub let mut current: &mut dyn Widget<M> = self\.root\.as_mut\(\); ==> let mut current: &mut Node = &mut self.root;
//@ sub for &index in &path \{ ==> for k in 0..path.len() { let index = path[k];
//@ sub \bf\(current\) ==> current.visit()
//@ contract
    ensures leads(old(self).root.tree(), ints(old(self).focus_path.indices@)) ==> r is Some && r->Some_0.who().tree() == at(old(self).root.tree(), ints(old(self).focus_path.indices@)),
        !leads(old(self).root.tree(), ints(old(self).focus_path.indices@)) ==> r is None,
//@ start
    let ghost t = self.root.tree(); let ghost p = ints(self.focus_path.indices@);
//@ loop 1
    invariant t == old(self).root.tree(), p == ints(old(self).focus_path.indices@), ints(path@) == p, at(t, p) == at(current.tree(), p.skip(k as int)), leads(t, p) == leads(current.tree(), p.skip(k as int)),
//@ loop_start 1
    proof { let q = p.skip(k as int); assert(q.len() > 0); assert(q.drop_first() =~= p.skip(k + 1)); assert(q[0] == path@[k as int]); assert(leads(current.tree(), q) ==> q[0] < current.tree().kids.len()); assert(at(current.tree(), q) == if q[0] < current.tree().kids.len() { at(current.tree().kids[q[0]], q.drop_first()) } else { current.tree() }); }
//@ before_loop 1
    proof { assert(p.skip(0) =~= p); }
//@ after_loop 1
    proof { assert(p.skip(p.len() as int) =~= seq![]); }
//@ end
//@ extract crates/textual/src/tree.rs fn WidgetTree::focus_is_valid
//@ ret r
//@ sub let mut current: &mut dyn Widget<M> = self\.root\.as_mut\(\); ==> let mut current: &mut Node = &mut self.root;
//@ sub for &index in &path \{ ==> for k in 0..path.len() { let index = path[k];
//@ contract
    ensures r == reach(old(self).root.tree(), ints(old(self).focus_path.indices@)),
//@ start
    let ghost t = self.root.tree(); let ghost p = ints(self.focus_path.indices@);
//@ loop 1
    invariant t == old(self).root.tree(), p == ints(old(self).focus_path.indices@), ints(path@) == p, reach(t, p) == reach(current.tree(), p.skip(k as int)),
//@ loop_start 1
    proof { let q = p.skip(k as int); assert(q.len() > 0); assert(q.drop_first() =~= p.skip(k + 1)); assert(q[0] == path@[k as int]); }
//@ before_loop 1
    proof { assert(p.skip(0) =~= p); }
//@ after_loop 1
    proof { assert(p.skip(p.len() as int) =~= seq![]); }
//@ end
}
pub open spec fn first_named(t: Tree, n: int, id: Seq<char>) -> bool { 0 <= n < count(t) && named(t, n, id) && forall|m: int| 0 <= m < n ==> !#[trigger] named(t, m, id) }
/// the path stays within the tree
pub open spec fn leads(t: Tree, p: Seq<int>) -> bool decreases p.len() { p.len() == 0 || (0 <= p[0] < t.kids.len() && leads(t.kids[p[0]], p.drop_first())) }
proof fn lemma_reach_leads(t: Tree, p: Seq<int>) requires reach(t, p), ensures leads(t, p), at(t, p).takes decreases p.len() { if p.len() > 0 { lemma_reach_leads(t.kids[p[0]], p.drop_first()); } }
/// THE PROPERTY (keys): a focused tree calls exactly the focused widget, which can take focus
proof fn theorem_keys(w: WidgetTree, n: int) requires focused_on(w, n), ensures leads(w.root.tree(), ints(w.focus_path.indices@)), reach(w.root.tree(), ints(w.focus_path.indices@)), w.root.lit(ints(w.focus_path.indices@))
{ theorem_reach(w.root.tree(), n); lemma_reach_leads(w.root.tree(), path_to(w.root.tree(), n)); }
fn lesser(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

// ---------------------------------------------------------------- every container keeps the contract
pub open spec fn trees(v: Seq<Node>) -> Seq<Tree> { Seq::new(v.len(), |i: int| v[i].tree()) }
pub open spec fn box_of(v: Seq<Node>) -> Tree { Tree { live: true, takes: false, id: None, kids: trees(v) } }
pub open spec fn lit_in(v: Seq<Node>, p: Seq<int>) -> bool { p.len() > 0 && 0 <= p[0] < v.len() && v[p[0]].lit(p.drop_first()) }
proof fn lemma_up(v: Seq<Node>, k: int, c: Node) requires 0 <= k < v.len(), c.tree() == v[k].tree(), ensures trees(v.update(k, c)) == trees(v) { assert(trees(v.update(k, c)) =~= trees(v)); }
pub struct Container { pub children: Vec<Node> }
impl Container {
//@ extract crates/textual/src/containers/container.rs fn Widget for Container::count_focusable
//@ ret r
//@ sub self\s*\.children\s*\.iter\(\)\s*\.filter\(\|(\w+)\| \1\.(\w+)\(\)\)\s*\.map\(\|(\w+)\| \3\.(\w+)\(\)\)\s*\.sum\(\) ==> let mut total: usize = 0; for k in 0..self.children.len() { let c = &self.children[k]; if c.\2() { total += c.\4(); } } total
//@ contract
    requires count(box_of(self.children@)) <= usize::MAX,
    ensures r == count(box_of(self.children@)),
//@ start
    let ghost t = box_of(self.children@);
//@ loop 1
    invariant t == box_of(self.children@), total == counts(t, k as int), count(t) <= usize::MAX,
//@ loop_start 1
    proof { lemma_kid(t, k as int); lemma_counts(t, k + 1, t.kids.len() as int); lemma_own(t); assert(counts(t, k + 1) == counts(t, k as int) + part(t, k as int)); }
//@ end
//@ extract crates/textual/src/containers/container.rs fn Widget for Container::clear_focus
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    let ghost v0 = self.children@;
//@ loop 1
    invariant v0 == old(self).children@, self.children@.len() == v0.len(), trees(self.children@) == trees(v0), forall|j: int, p: Seq<int>| 0 <= j < k ==> !#[trigger] self.children@[j].lit(p),
//@ loop_start 1
    let ghost was = self.children@; proof { assert(trees(was)[k as int] == was[k as int].tree()); }
//@ loop_end 1
    proof { lemma_up(was, k as int, self.children@[k as int]); assert(self.children@ =~= was.update(k as int, self.children@[k as int])); }
//@ end
//@ extract crates/textual/src/containers/container.rs fn Widget for Container::focus_nth
//@ ret r
//@ sub SIG:(?:mut )?n: usize ==> first: usize
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    requires count(box_of(old(self).children@)) <= usize::MAX,
    ensures r == (first < count(box_of(old(self).children@))), trees(final(self).children@) == trees(old(self).children@),
        forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || (r && p == path_to(box_of(old(self).children@), first as int))),
//@ start
    let mut n = first;
    let ghost v0 = self.children@; let ghost n0 = first as int; let ghost t = box_of(v0);
    proof { lemma_own(t); assert(counts(t, 0) == 0); lemma_counts(t, 0, t.kids.len() as int); }
//@ loop 1
    invariant n0 == first, v0 == old(self).children@, self.children@ == v0, t == box_of(v0), n == n0 - counts(t, k as int), count(t) <= usize::MAX, count(t) == counts(t, t.kids.len() as int),
        
//@ loop_start 1
    let ghost kk = k as int;
    proof {
        assert(t.kids[kk] == v0[kk].tree());
        lemma_kid(t, kk); lemma_counts(t, kk + 1, t.kids.len() as int); assert(counts(t, kk + 1) == counts(t, kk) + part(t, kk));
        if t.kids[kk].live && n < count(t.kids[kk]) { lemma_down(t, 0, kk, n as int); let q = path_to(t.kids[kk], n as int); assert((seq![kk] + q).drop_first() =~= q); assert forall|p: Seq<int>| p.len() > 0 && p[0] == kk implies (#[trigger] p.drop_first() == q) == (p == seq![kk] + q) by { lemma_lit_same(p, kk); } assert(path_to(t, n0) == seq![kk] + q); }
    }
//@ end
}
pub struct Grid { pub children: Vec<Node> }
impl Grid {
//@ extract crates/textual/src/containers/grid.rs fn Widget for Grid::count_focusable
//@ ret r
//@ sub self\s*\.children\s*\.iter\(\)\s*\.filter\(\|(\w+)\| \1\.(\w+)\(\)\)\s*\.map\(\|(\w+)\| \3\.(\w+)\(\)\)\s*\.sum\(\) ==> let mut total: usize = 0; for k in 0..self.children.len() { let c = &self.children[k]; if c.\2() { total += c.\4(); } } total
//@ contract
    requires count(box_of(self.children@)) <= usize::MAX,
    ensures r == count(box_of(self.children@)),
//@ start
    let ghost t = box_of(self.children@);
//@ loop 1
    invariant t == box_of(self.children@), total == counts(t, k as int), count(t) <= usize::MAX,
//@ loop_start 1
    proof { lemma_kid(t, k as int); lemma_counts(t, k + 1, t.kids.len() as int); lemma_own(t); assert(counts(t, k + 1) == counts(t, k as int) + part(t, k as int)); }
//@ end
//@ extract crates/textual/src/containers/grid.rs fn Widget for Grid::clear_focus
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    let ghost v0 = self.children@;
//@ loop 1
    invariant v0 == old(self).children@, self.children@.len() == v0.len(), trees(self.children@) == trees(v0), forall|j: int, p: Seq<int>| 0 <= j < k ==> !#[trigger] self.children@[j].lit(p),
//@ loop_start 1
    let ghost was = self.children@; proof { assert(trees(was)[k as int] == was[k as int].tree()); }
//@ loop_end 1
    proof { lemma_up(was, k as int, self.children@[k as int]); assert(self.children@ =~= was.update(k as int, self.children@[k as int])); }
//@ end
//@ extract crates/textual/src/containers/grid.rs fn Widget for Grid::focus_nth
//@ ret r
//@ sub SIG:(?:mut )?n: usize ==> first: usize
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    requires count(box_of(old(self).children@)) <= usize::MAX,
    ensures r == (first < count(box_of(old(self).children@))), trees(final(self).children@) == trees(old(self).children@),
        forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || (r && p == path_to(box_of(old(self).children@), first as int))),
//@ start
    let mut n = first;
    let ghost v0 = self.children@; let ghost n0 = first as int; let ghost t = box_of(v0);
    proof { lemma_own(t); assert(counts(t, 0) == 0); lemma_counts(t, 0, t.kids.len() as int); }
//@ loop 1
    invariant n0 == first, v0 == old(self).children@, self.children@ == v0, t == box_of(v0), n == n0 - counts(t, k as int), count(t) <= usize::MAX, count(t) == counts(t, t.kids.len() as int),
        
//@ loop_start 1
    let ghost kk = k as int;
    proof {
        assert(t.kids[kk] == v0[kk].tree());
        lemma_kid(t, kk); lemma_counts(t, kk + 1, t.kids.len() as int); assert(counts(t, kk + 1) == counts(t, kk) + part(t, kk));
        if t.kids[kk].live && n < count(t.kids[kk]) { lemma_down(t, 0, kk, n as int); let q = path_to(t.kids[kk], n as int); assert((seq![kk] + q).drop_first() =~= q); assert forall|p: Seq<int>| p.len() > 0 && p[0] == kk implies (#[trigger] p.drop_first() == q) == (p == seq![kk] + q) by { lemma_lit_same(p, kk); } assert(path_to(t, n0) == seq![kk] + q); }
    }
//@ end
}
pub struct ItemGrid { pub children: Vec<Node> }
impl ItemGrid {
//@ extract crates/textual/src/containers/item_grid.rs fn Widget for ItemGrid::count_focusable
//@ ret r
//@ sub self\s*\.children\s*\.iter\(\)\s*\.filter\(\|(\w+)\| \1\.(\w+)\(\)\)\s*\.map\(\|(\w+)\| \3\.(\w+)\(\)\)\s*\.sum\(\) ==> let mut total: usize = 0; for k in 0..self.children.len() { let c = &self.children[k]; if c.\2() { total += c.\4(); } } total
//@ contract
    requires count(box_of(self.children@)) <= usize::MAX,
    ensures r == count(box_of(self.children@)),
//@ start
    let ghost t = box_of(self.children@);
//@ loop 1
    invariant t == box_of(self.children@), total == counts(t, k as int), count(t) <= usize::MAX,
//@ loop_start 1
    proof { lemma_kid(t, k as int); lemma_counts(t, k + 1, t.kids.len() as int); lemma_own(t); assert(counts(t, k + 1) == counts(t, k as int) + part(t, k as int)); }
//@ end
//@ extract crates/textual/src/containers/item_grid.rs fn Widget for ItemGrid::clear_focus
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    let ghost v0 = self.children@;
//@ loop 1
    invariant v0 == old(self).children@, self.children@.len() == v0.len(), trees(self.children@) == trees(v0), forall|j: int, p: Seq<int>| 0 <= j < k ==> !#[trigger] self.children@[j].lit(p),
//@ loop_start 1
    let ghost was = self.children@; proof { assert(trees(was)[k as int] == was[k as int].tree()); }
//@ loop_end 1
    proof { lemma_up(was, k as int, self.children@[k as int]); assert(self.children@ =~= was.update(k as int, self.children@[k as int])); }
//@ end
//@ extract crates/textual/src/containers/item_grid.rs fn Widget for ItemGrid::focus_nth
//@ ret r
//@ sub SIG:(?:mut )?n: usize ==> first: usize
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    requires count(box_of(old(self).children@)) <= usize::MAX,
    ensures r == (first < count(box_of(old(self).children@))), trees(final(self).children@) == trees(old(self).children@),
        forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || (r && p == path_to(box_of(old(self).children@), first as int))),
//@ start
    let mut n = first;
    let ghost v0 = self.children@; let ghost n0 = first as int; let ghost t = box_of(v0);
    proof { lemma_own(t); assert(counts(t, 0) == 0); lemma_counts(t, 0, t.kids.len() as int); }
//@ loop 1
    invariant n0 == first, v0 == old(self).children@, self.children@ == v0, t == box_of(v0), n == n0 - counts(t, k as int), count(t) <= usize::MAX, count(t) == counts(t, t.kids.len() as int),
        
//@ loop_start 1
    let ghost kk = k as int;
    proof {
        assert(t.kids[kk] == v0[kk].tree());
        lemma_kid(t, kk); lemma_counts(t, kk + 1, t.kids.len() as int); assert(counts(t, kk + 1) == counts(t, kk) + part(t, kk));
        if t.kids[kk].live && n < count(t.kids[kk]) { lemma_down(t, 0, kk, n as int); let q = path_to(t.kids[kk], n as int); assert((seq![kk] + q).drop_first() =~= q); assert forall|p: Seq<int>| p.len() > 0 && p[0] == kk implies (#[trigger] p.drop_first() == q) == (p == seq![kk] + q) by { lemma_lit_same(p, kk); } assert(path_to(t, n0) == seq![kk] + q); }
    }
//@ end
}
pub struct ScrollableContainer { pub children: Vec<Node> }
impl ScrollableContainer {
//@ extract crates/textual/src/containers/scrollable.rs fn Widget for ScrollableContainer::count_focusable
//@ ret r
//@ sub self\s*\.children\s*\.iter\(\)\s*\.filter\(\|(\w+)\| \1\.(\w+)\(\)\)\s*\.map\(\|(\w+)\| \3\.(\w+)\(\)\)\s*\.sum\(\) ==> let mut total: usize = 0; for k in 0..self.children.len() { let c = &self.children[k]; if c.\2() { total += c.\4(); } } total
//@ contract
    requires count(box_of(self.children@)) <= usize::MAX,
    ensures r == count(box_of(self.children@)),
//@ start
    let ghost t = box_of(self.children@);
//@ loop 1
    invariant t == box_of(self.children@), total == counts(t, k as int), count(t) <= usize::MAX,
//@ loop_start 1
    proof { lemma_kid(t, k as int); lemma_counts(t, k + 1, t.kids.len() as int); lemma_own(t); assert(counts(t, k + 1) == counts(t, k as int) + part(t, k as int)); }
//@ end
//@ extract crates/textual/src/containers/scrollable.rs fn Widget for ScrollableContainer::clear_focus
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    let ghost v0 = self.children@;
//@ loop 1
    invariant v0 == old(self).children@, self.children@.len() == v0.len(), trees(self.children@) == trees(v0), forall|j: int, p: Seq<int>| 0 <= j < k ==> !#[trigger] self.children@[j].lit(p),
//@ loop_start 1
    let ghost was = self.children@; proof { assert(trees(was)[k as int] == was[k as int].tree()); }
//@ loop_end 1
    proof { lemma_up(was, k as int, self.children@[k as int]); assert(self.children@ =~= was.update(k as int, self.children@[k as int])); }
//@ end
//@ extract crates/textual/src/containers/scrollable.rs fn Widget for ScrollableContainer::focus_nth
//@ ret r
//@ sub SIG:(?:mut )?n: usize ==> first: usize
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    requires count(box_of(old(self).children@)) <= usize::MAX,
    ensures r == (first < count(box_of(old(self).children@))), trees(final(self).children@) == trees(old(self).children@),
        forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || (r && p == path_to(box_of(old(self).children@), first as int))),
//@ start
    let mut n = first;
    let ghost v0 = self.children@; let ghost n0 = first as int; let ghost t = box_of(v0);
    proof { lemma_own(t); assert(counts(t, 0) == 0); lemma_counts(t, 0, t.kids.len() as int); }
//@ loop 1
    invariant n0 == first, n == first, v0 == old(self).children@, self.children@ == v0, t == box_of(v0), remaining == n0 - counts(t, k as int), count(t) <= usize::MAX, count(t) == counts(t, t.kids.len() as int),
//@ loop_start 1
    let ghost kk = k as int;
    proof {
        assert(t.kids[kk] == v0[kk].tree());
        lemma_kid(t, kk); lemma_counts(t, kk + 1, t.kids.len() as int); assert(counts(t, kk + 1) == counts(t, kk) + part(t, kk));
        if t.kids[kk].live && remaining < count(t.kids[kk]) { lemma_down(t, 0, kk, remaining as int); let q = path_to(t.kids[kk], remaining as int); assert((seq![kk] + q).drop_first() =~= q); assert forall|p: Seq<int>| p.len() > 0 && p[0] == kk implies (#[trigger] p.drop_first() == q) == (p == seq![kk] + q) by { lemma_lit_same(p, kk); } assert(path_to(t, n0) == seq![kk] + q); }
    }
//@ end
}
pub struct Screen { pub children: Vec<Node> }
impl Screen {
//@ extract crates/textual/src/widget/screen.rs fn Widget for Screen::count_focusable
//@ ret r
//@ sub self\s*\.children\s*\.iter\(\)\s*\.filter\(\|(\w+)\| \1\.(\w+)\(\)\)\s*\.map\(\|(\w+)\| \3\.(\w+)\(\)\)\s*\.sum\(\) ==> let mut total: usize = 0; for k in 0..self.children.len() { let c = &self.children[k]; if c.\2() { total += c.\4(); } } total
//@ contract
    requires count(box_of(self.children@)) <= usize::MAX,
    ensures r == count(box_of(self.children@)),
//@ start
    let ghost t = box_of(self.children@);
//@ loop 1
    invariant t == box_of(self.children@), total == counts(t, k as int), count(t) <= usize::MAX,
//@ loop_start 1
    proof { lemma_kid(t, k as int); lemma_counts(t, k + 1, t.kids.len() as int); lemma_own(t); assert(counts(t, k + 1) == counts(t, k as int) + part(t, k as int)); }
//@ end
//@ extract crates/textual/src/widget/screen.rs fn Widget for Screen::clear_focus
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    let ghost v0 = self.children@;
//@ loop 1
    invariant v0 == old(self).children@, self.children@.len() == v0.len(), trees(self.children@) == trees(v0), forall|j: int, p: Seq<int>| 0 <= j < k ==> !#[trigger] self.children@[j].lit(p),
//@ loop_start 1
    let ghost was = self.children@; proof { assert(trees(was)[k as int] == was[k as int].tree()); }
//@ loop_end 1
    proof { lemma_up(was, k as int, self.children@[k as int]); assert(self.children@ =~= was.update(k as int, self.children@[k as int])); }
//@ end
//@ extract crates/textual/src/widget/screen.rs fn Widget for Screen::focus_nth
//@ ret r
//@ sub SIG:(?:mut )?n: usize ==> first: usize
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    requires count(box_of(old(self).children@)) <= usize::MAX,
    ensures r == (first < count(box_of(old(self).children@))), trees(final(self).children@) == trees(old(self).children@),
        forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || (r && p == path_to(box_of(old(self).children@), first as int))),
//@ start
    let mut n = first;
    let ghost v0 = self.children@; let ghost n0 = first as int; let ghost t = box_of(v0);
    proof { lemma_own(t); assert(counts(t, 0) == 0); lemma_counts(t, 0, t.kids.len() as int); }
//@ loop 1
    invariant n0 == first, v0 == old(self).children@, self.children@ == v0, t == box_of(v0), n == n0 - counts(t, k as int), count(t) <= usize::MAX, count(t) == counts(t, t.kids.len() as int),
        
//@ loop_start 1
    let ghost kk = k as int;
    proof {
        assert(t.kids[kk] == v0[kk].tree());
        lemma_kid(t, kk); lemma_counts(t, kk + 1, t.kids.len() as int); assert(counts(t, kk + 1) == counts(t, kk) + part(t, kk));
        if t.kids[kk].live && n < count(t.kids[kk]) { lemma_down(t, 0, kk, n as int); let q = path_to(t.kids[kk], n as int); assert((seq![kk] + q).drop_first() =~= q); assert forall|p: Seq<int>| p.len() > 0 && p[0] == kk implies (#[trigger] p.drop_first() == q) == (p == seq![kk] + q) by { lemma_lit_same(p, kk); } assert(path_to(t, n0) == seq![kk] + q); }
    }
//@ end
}
pub struct AppWidget { pub children: Vec<Node> }
impl AppWidget {
//@ extract crates/textual/src/widget/app_widget.rs fn Widget for AppWidget::count_focusable
//@ ret r
//@ sub self\s*\.children\s*\.iter\(\)\s*\.filter\(\|(\w+)\| \1\.(\w+)\(\)\)\s*\.map\(\|(\w+)\| \3\.(\w+)\(\)\)\s*\.sum\(\) ==> let mut total: usize = 0; for k in 0..self.children.len() { let c = &self.children[k]; if c.\2() { total += c.\4(); } } total
//@ contract
    requires count(box_of(self.children@)) <= usize::MAX,
    ensures r == count(box_of(self.children@)),
//@ start
    let ghost t = box_of(self.children@);
//@ loop 1
    invariant t == box_of(self.children@), total == counts(t, k as int), count(t) <= usize::MAX,
//@ loop_start 1
    proof { lemma_kid(t, k as int); lemma_counts(t, k + 1, t.kids.len() as int); lemma_own(t); assert(counts(t, k + 1) == counts(t, k as int) + part(t, k as int)); }
//@ end
//@ extract crates/textual/src/widget/app_widget.rs fn Widget for AppWidget::clear_focus
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    let ghost v0 = self.children@;
//@ loop 1
    invariant v0 == old(self).children@, self.children@.len() == v0.len(), trees(self.children@) == trees(v0), forall|j: int, p: Seq<int>| 0 <= j < k ==> !#[trigger] self.children@[j].lit(p),
//@ loop_start 1
    let ghost was = self.children@; proof { assert(trees(was)[k as int] == was[k as int].tree()); }
//@ loop_end 1
    proof { lemma_up(was, k as int, self.children@[k as int]); assert(self.children@ =~= was.update(k as int, self.children@[k as int])); }
//@ end
//@ extract crates/textual/src/widget/app_widget.rs fn Widget for AppWidget::focus_nth
//@ ret r
//@ sub SIG:(?:mut )?n: usize ==> first: usize
//@ sub for child in &mut self\.children \{ ==> for k in 0..self.children.len() { let child = &mut self.children[k];
//@ contract
    requires count(box_of(old(self).children@)) <= usize::MAX,
    ensures r == (first < count(box_of(old(self).children@))), trees(final(self).children@) == trees(old(self).children@),
        forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || (r && p == path_to(box_of(old(self).children@), first as int))),
//@ start
    let mut n = first;
    let ghost v0 = self.children@; let ghost n0 = first as int; let ghost t = box_of(v0);
    proof { lemma_own(t); assert(counts(t, 0) == 0); lemma_counts(t, 0, t.kids.len() as int); }
//@ loop 1
    invariant n0 == first, n == first, v0 == old(self).children@, self.children@ == v0, t == box_of(v0), remaining == n0 - counts(t, k as int), count(t) <= usize::MAX, count(t) == counts(t, t.kids.len() as int),
//@ loop_start 1
    let ghost kk = k as int;
    proof {
        assert(t.kids[kk] == v0[kk].tree());
        lemma_kid(t, kk); lemma_counts(t, kk + 1, t.kids.len() as int); assert(counts(t, kk + 1) == counts(t, kk) + part(t, kk));
        if t.kids[kk].live && remaining < count(t.kids[kk]) { lemma_down(t, 0, kk, remaining as int); let q = path_to(t.kids[kk], remaining as int); assert((seq![kk] + q).drop_first() =~= q); assert forall|p: Seq<int>| p.len() > 0 && p[0] == kk implies (#[trigger] p.drop_first() == q) == (p == seq![kk] + q) by { lemma_lit_same(p, kk); } assert(path_to(t, n0) == seq![kk] + q); }
    }
//@ end
}

#[verifier::external_body]
fn entry(v: &mut Vec<Node>, index: usize) -> (r: Option<&mut Node>)
    ensures r is Some == (index < old(v)@.len()), match r { Some(c) => *c == old(v)@[index as int] && final(v)@ == old(v)@.update(index as int, *final(c)), None => *final(v) == *old(v) } { v.get_mut(index) }
impl Container {
//@ extract crates/textual/src/containers/container.rs fn Widget for Container::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/containers/container.rs fn Widget for Container::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
}
impl Grid {
//@ extract crates/textual/src/containers/grid.rs fn Widget for Grid::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/containers/grid.rs fn Widget for Grid::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
}
impl ItemGrid {
//@ extract crates/textual/src/containers/item_grid.rs fn Widget for ItemGrid::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/containers/item_grid.rs fn Widget for ItemGrid::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
}
impl ScrollableContainer {
//@ extract crates/textual/src/containers/scrollable.rs fn Widget for ScrollableContainer::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/containers/scrollable.rs fn Widget for ScrollableContainer::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
}
impl Screen {
//@ extract crates/textual/src/widget/screen.rs fn Widget for Screen::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/widget/screen.rs fn Widget for Screen::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
}
impl AppWidget {
//@ extract crates/textual/src/widget/app_widget.rs fn Widget for AppWidget::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/widget/app_widget.rs fn Widget for AppWidget::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
}
pub struct Center { pub children: Vec<Node> }
impl Center {
    pub open spec fn ok(&self) -> bool { self.children@.len() == 1 && count(box_of(self.children@)) <= usize::MAX }
//@ extract crates/textual/src/containers.rs fn Center::child
//@ ret r
//@ sub SIG:&dyn Widget<M> ==> &Node
//@ sub \.as_ref\(\) ==> 
//@ sub self ==> &self
//@ contract
    requires self.ok(), ensures *r == self.children@[0],
//@ end
//@ extract crates/textual/src/containers.rs fn Center::child_mut
//@ ret r
//@ sub SIG:&mut dyn Widget<M> ==> &mut Node
//@ sub \.as_mut\(\) ==> 
//@ sub self ==> &mut self
//@ contract
    requires old(self).ok(), ensures *r == old(self).children@[0], final(self).children@ == seq![*final(r)],
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Center::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Center::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Center::count_focusable
//@ ret r
//@ contract
    requires self.ok(), ensures r == count(box_of(self.children@)),
//@ start
    proof { let t = box_of(self.children@); lemma_kid(t, 0); lemma_own(t); assert(counts(t, 1) == counts(t, 0) + part(t, 0)); assert(counts(t, 0) == 0); }
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Center::clear_focus
//@ contract
    requires old(self).ok(), ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    proof { assert forall|c: Node| #[trigger] c.tree() == self.children@[0].tree() implies trees(seq![c]) == trees(self.children@) by { assert(trees(seq![c]) =~= trees(self.children@)); } }
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Center::focus_nth
//@ ret r
//@ contract
    requires old(self).ok(), n < count(box_of(old(self).children@)),
    ensures r, trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || p == path_to(box_of(old(self).children@), n as int)),
//@ start
    proof {
        let t = box_of(self.children@); lemma_kid(t, 0); lemma_own(t); assert(counts(t, 1) == counts(t, 0) + part(t, 0)); assert(counts(t, 0) == 0); lemma_down(t, 0, 0, n as int);
        let q = path_to(t.kids[0], n as int); assert((seq![0int] + q).drop_first() =~= q);
        assert forall|p: Seq<int>| p.len() > 0 && p[0] == 0 implies (#[trigger] p.drop_first() == q) == (p == seq![0int] + q) by { lemma_lit_same(p, 0); }
        assert forall|c: Node| #[trigger] c.tree() == self.children@[0].tree() implies trees(seq![c]) == trees(self.children@) by { assert(trees(seq![c]) =~= trees(self.children@)); }
    }
//@ end
}
pub struct Middle { pub children: Vec<Node> }
impl Middle {
    pub open spec fn ok(&self) -> bool { self.children@.len() == 1 && count(box_of(self.children@)) <= usize::MAX }
//@ extract crates/textual/src/containers.rs fn Middle::child
//@ ret r
//@ sub SIG:&dyn Widget<M> ==> &Node
//@ sub \.as_ref\(\) ==> 
//@ sub self ==> &self
//@ contract
    requires self.ok(), ensures *r == self.children@[0],
//@ end
//@ extract crates/textual/src/containers.rs fn Middle::child_mut
//@ ret r
//@ sub SIG:&mut dyn Widget<M> ==> &mut Node
//@ sub \.as_mut\(\) ==> 
//@ sub self ==> &mut self
//@ contract
    requires old(self).ok(), ensures *r == old(self).children@[0], final(self).children@ == seq![*final(r)],
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Middle::child_count
//@ ret r
//@ contract
    ensures r == self.children@.len(),
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Middle::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ sub? Some\(self\.children\[index\]\.as_mut\(\)\) ==> Some(&mut self.children[index])
//@ sub? self\s*\.children\s*\.get_mut\(index\) ==> entry(&mut self.children, index)
//@ sub? \.map\(\|c\| c\.as_mut\(\) as &mut dyn Widget<M>\) ==> 
//@ sub? Some\((\w+)\.as_mut\(\)\) ==> Some(\1)
//@ contract
    ensures r is Some == (index < old(self).children@.len()), match r { Some(c) => *c == old(self).children@[index as int] && final(self).children@ == old(self).children@.update(index as int, *final(c)), None => final(self).children@ == old(self).children@ },
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Middle::count_focusable
//@ ret r
//@ contract
    requires self.ok(), ensures r == count(box_of(self.children@)),
//@ start
    proof { let t = box_of(self.children@); lemma_kid(t, 0); lemma_own(t); assert(counts(t, 1) == counts(t, 0) + part(t, 0)); assert(counts(t, 0) == 0); }
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Middle::clear_focus
//@ contract
    requires old(self).ok(), ensures trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| !#[trigger] lit_in(final(self).children@, p),
//@ start
    proof { assert forall|c: Node| #[trigger] c.tree() == self.children@[0].tree() implies trees(seq![c]) == trees(self.children@) by { assert(trees(seq![c]) =~= trees(self.children@)); } }
//@ end
//@ extract crates/textual/src/containers.rs fn Widget for Middle::focus_nth
//@ ret r
//@ contract
    requires old(self).ok(), n < count(box_of(old(self).children@)),
    ensures r, trees(final(self).children@) == trees(old(self).children@), forall|p: Seq<int>| #[trigger] lit_in(final(self).children@, p) == (lit_in(old(self).children@, p) || p == path_to(box_of(old(self).children@), n as int)),
//@ start
    proof {
        let t = box_of(self.children@); lemma_kid(t, 0); lemma_own(t); assert(counts(t, 1) == counts(t, 0) + part(t, 0)); assert(counts(t, 0) == 0); lemma_down(t, 0, 0, n as int);
        let q = path_to(t.kids[0], n as int); assert((seq![0int] + q).drop_first() =~= q);
        assert forall|p: Seq<int>| p.len() > 0 && p[0] == 0 implies (#[trigger] p.drop_first() == q) == (p == seq![0int] + q) by { lemma_lit_same(p, 0); }
        assert forall|c: Node| #[trigger] c.tree() == self.children@[0].tree() implies trees(seq![c]) == trees(self.children@) by { assert(trees(seq![c]) =~= trees(self.children@)); }
    }
//@ end
}

// ---------------------------------------------------------------- widgets without children
pub open spec fn leaf(takes: bool) -> Tree { Tree { live: true, takes, id: None, kids: seq![] } }
proof fn lemma_leaf(b: bool) ensures count(leaf(b)) == if b { 1int } else { 0int }, b ==> path_to(leaf(b), 0) == Seq::<int>::empty() { }
#[verifier::external_body]
pub struct Leaf { x: u8 }
impl Leaf {
    pub uninterp spec fn takes(&self) -> bool;
    pub uninterp spec fn focused(&self) -> bool;
    #[verifier::external_body]
    fn is_focusable(&self) -> (r: bool) ensures r == self.takes() { unimplemented!() }
    #[verifier::external_body]
    fn set_focus(&mut self, b: bool) ensures final(self).focused() == b, final(self).takes() == old(self).takes() { unimplemented!() }
//@ extract crates/textual/src/widget.rs fn Widget::count_focusable
//@ ret r
//@ contract
    ensures r == count(leaf(self.takes())),
//@ start
    proof { lemma_leaf(self.takes()); }
//@ end
//@ extract crates/textual/src/widget.rs fn Widget::clear_focus
//@ contract
    ensures !final(self).focused(), final(self).takes() == old(self).takes(),
//@ end
//@ extract crates/textual/src/widget.rs fn Widget::focus_nth
//@ ret r
//@ contract
    ensures r == (n < count(leaf(old(self).takes()))), final(self).focused() == (r || old(self).focused()), final(self).takes() == old(self).takes(),
//@ start
    proof { lemma_leaf(self.takes()); }
//@ end
}
pub struct Switch { pub focused: bool, pub dirty: bool, pub visible: bool, pub disabled: bool, pub loading: bool }
impl Switch {
    pub open spec fn takes(&self) -> bool { self.visible && !self.disabled && !self.loading }
//@ extract crates/textual/src/widget/switch.rs fn Widget for Switch::is_focusable
//@ ret r
//@ contract
    ensures r == self.takes(),
//@ end
//@ extract crates/textual/src/widget/switch.rs fn Widget for Switch::set_focus
//@ contract
    ensures *final(self) == (Switch { focused: is_focused, dirty: final(self).dirty, ..*old(self) }), !old(self).dirty && final(self).focused != old(self).focused ==> final(self).dirty,
//@ end
//@ extract crates/textual/src/widget/switch.rs fn Widget for Switch::is_focused
//@ ret r
//@ contract
    ensures r == self.focused,
//@ end
//@ extract crates/textual/src/widget/switch.rs fn Widget for Switch::focus_nth
//@ ret r
//@ contract
    requires n < count(leaf(old(self).takes())), ensures r, final(self).focused, final(self).takes() == old(self).takes(),
//@ start
    proof { lemma_leaf(self.takes()); }
//@ end
}
#[verifier::external_body]
pub struct Inner { x: u8 }
impl Inner {
    pub uninterp spec fn visible(&self) -> bool;
    pub uninterp spec fn disabled(&self) -> bool;
    #[verifier::external_body] fn is_visible(&self) -> (r: bool) ensures r == self.visible() { unimplemented!() }
    #[verifier::external_body] fn is_disabled(&self) -> (r: bool) ensures r == self.disabled() { unimplemented!() }
}
pub struct Button { pub focused: bool, pub dirty: bool, pub inner: Inner }
impl Button {
    pub open spec fn takes(&self) -> bool { !self.inner.disabled() }
//@ extract crates/textual/src/widget/button.rs fn Widget for Button::is_focusable
//@ ret r
//@ contract
    ensures r == self.takes(),
//@ end
//@ extract crates/textual/src/widget/button.rs fn Widget for Button::set_focus
//@ contract
    ensures final(self).focused == is_focused, final(self).inner == old(self).inner,
//@ end
//@ extract crates/textual/src/widget/button.rs fn Widget for Button::is_focused
//@ ret r
//@ contract
    ensures r == self.focused,
//@ end
//@ extract crates/textual/src/widget/button.rs fn Widget for Button::focus_nth
//@ ret r
//@ contract
    requires n < count(leaf(old(self).takes())), ensures r, final(self).focused, final(self).takes() == old(self).takes(),
//@ start
    proof { lemma_leaf(self.takes()); }
//@ end
}
pub struct Input { pub focused: bool, pub inner: Inner }
impl Input {
    #[verifier::external_body] fn refresh_display(&mut self) ensures final(self).focused == old(self).focused, final(self).inner.visible() == old(self).inner.visible(), final(self).inner.disabled() == old(self).inner.disabled() { unimplemented!() }
    pub open spec fn takes(&self) -> bool { self.inner.visible() && !self.inner.disabled() }
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::is_visible
//@ ret r
//@ contract
    ensures r == self.inner.visible(),
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::is_disabled
//@ ret r
//@ contract
    ensures r == self.inner.disabled(),
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::is_focusable
//@ ret r
//@ contract
    ensures r == self.takes(),
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::set_focus
//@ contract
    ensures final(self).focused == is_focused, final(self).takes() == old(self).takes(),
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::is_focused
//@ ret r
//@ contract
    ensures r == self.focused,
//@ end
}
pub struct OptionList { pub focused: bool, pub inner: Inner }
impl OptionList {
    #[verifier::external_body] fn refresh_display(&mut self) ensures final(self).focused == old(self).focused, final(self).inner.visible() == old(self).inner.visible(), final(self).inner.disabled() == old(self).inner.disabled() { unimplemented!() }
    pub open spec fn takes(&self) -> bool { self.inner.visible() && !self.inner.disabled() }
//@ extract crates/textual/src/widget/option_list.rs fn Widget for OptionList::is_visible
//@ ret r
//@ contract
    ensures r == self.inner.visible(),
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn Widget for OptionList::is_disabled
//@ ret r
//@ contract
    ensures r == self.inner.disabled(),
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn Widget for OptionList::is_focusable
//@ ret r
//@ contract
    ensures r == self.takes(),
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn Widget for OptionList::set_focus
//@ contract
    ensures final(self).focused == is_focused, final(self).takes() == old(self).takes(),
//@ end
//@ extract crates/textual/src/widget/option_list.rs fn Widget for OptionList::is_focused
//@ ret r
//@ contract
    ensures r == self.focused,
//@ end
}
/// what the delegation macro writes for Horizontal and Vertical
pub struct Delegate { pub inner: Node }
impl Delegate {
//@ extract crates/textual/src/macros.rs fn $crate::Widget for $ty::count_focusable
//@ ret r
//@ sub \bself\s*\.\$field ==> self.inner
//@ contract
    ensures r == count(self.inner.tree()),
//@ end
//@ extract crates/textual/src/macros.rs fn $crate::Widget for $ty::clear_focus
//@ sub \bself\s*\.\$field ==> self.inner
//@ contract
    ensures final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| !#[trigger] final(self).inner.lit(p),
//@ end
//@ extract crates/textual/src/macros.rs fn $crate::Widget for $ty::focus_nth
//@ ret r
//@ sub \bself\s*\.\$field ==> self.inner
//@ contract
    requires n < count(old(self).inner.tree()),
    ensures r, final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == (old(self).inner.lit(p) || p == path_to(old(self).inner.tree(), n as int)),
//@ end
//@ extract crates/textual/src/macros.rs fn $crate::Widget for $ty::child_count
//@ ret r
//@ sub \bself\s*\.\$field ==> self.inner
//@ contract
    ensures r == self.inner.tree().kids.len(),
//@ end
//@ extract crates/textual/src/macros.rs fn $crate::Widget for $ty::is_focusable
//@ ret r
//@ sub \bself\s*\.\$field ==> self.inner
//@ contract
    ensures r == self.inner.tree().takes,
//@ end
//@ extract crates/textual/src/macros.rs fn $crate::Widget for $ty::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn \$crate::Widget<\$m> \+ '_\) ==> &mut Node
//@ sub \bself\s*\.\$field ==> self.inner
//@ contract
    ensures r is Some == (index < old(self).inner.tree().kids.len()),
      match r {
        Some(c) => c.tree() == old(self).inner.tree().kids[index as int] && final(self).inner.tree() == (Tree { kids: old(self).inner.tree().kids.update(index as int, final(c).tree()), ..old(self).inner.tree() })
            && (forall|p: Seq<int>| #[trigger] c.lit(p) == old(self).inner.lit(seq![index as int] + p))
            && (forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == if p.len() > 0 && p[0] == index { final(c).lit(p.drop_first()) } else { old(self).inner.lit(p) }),
        None => *final(self) == *old(self),
      },
//@ end
}
pub struct HorizontalScroll { pub inner: Node }
impl HorizontalScroll {
//@ extract crates/textual/src/containers/horizontal_scroll.rs fn Widget for HorizontalScroll::count_focusable
//@ ret r
//@ contract
    ensures r == count(self.inner.tree()),
//@ end
//@ extract crates/textual/src/containers/horizontal_scroll.rs fn Widget for HorizontalScroll::clear_focus
//@ contract
    ensures final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| !#[trigger] final(self).inner.lit(p),
//@ end
//@ extract crates/textual/src/containers/horizontal_scroll.rs fn Widget for HorizontalScroll::focus_nth
//@ ret r
//@ contract
    requires n < count(old(self).inner.tree()),
    ensures r, final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == (old(self).inner.lit(p) || p == path_to(old(self).inner.tree(), n as int)),
//@ end
//@ extract crates/textual/src/containers/horizontal_scroll.rs fn Widget for HorizontalScroll::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ contract
    ensures r is Some == (index < old(self).inner.tree().kids.len()),
      match r {
        Some(c) => c.tree() == old(self).inner.tree().kids[index as int] && final(self).inner.tree() == (Tree { kids: old(self).inner.tree().kids.update(index as int, final(c).tree()), ..old(self).inner.tree() })
            && (forall|p: Seq<int>| #[trigger] c.lit(p) == old(self).inner.lit(seq![index as int] + p))
            && (forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == if p.len() > 0 && p[0] == index { final(c).lit(p.drop_first()) } else { old(self).inner.lit(p) }),
        None => *final(self) == *old(self),
      },
//@ end
//@ extract crates/textual/src/containers/horizontal_scroll.rs fn Widget for HorizontalScroll::child_count
//@ ret r
//@ contract
    ensures r == self.inner.tree().kids.len(),
//@ end
//@ extract crates/textual/src/containers/horizontal_scroll.rs fn Widget for HorizontalScroll::is_focusable
//@ ret r
//@ contract
    ensures r == self.inner.tree().takes,
//@ end
}
pub struct VerticalScroll { pub inner: Node }
impl VerticalScroll {
//@ extract crates/textual/src/containers/vertical_scroll.rs fn Widget for VerticalScroll::count_focusable
//@ ret r
//@ contract
    ensures r == count(self.inner.tree()),
//@ end
//@ extract crates/textual/src/containers/vertical_scroll.rs fn Widget for VerticalScroll::clear_focus
//@ contract
    ensures final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| !#[trigger] final(self).inner.lit(p),
//@ end
//@ extract crates/textual/src/containers/vertical_scroll.rs fn Widget for VerticalScroll::focus_nth
//@ ret r
//@ contract
    requires n < count(old(self).inner.tree()),
    ensures r, final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == (old(self).inner.lit(p) || p == path_to(old(self).inner.tree(), n as int)),
//@ end
//@ extract crates/textual/src/containers/vertical_scroll.rs fn Widget for VerticalScroll::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn Widget<M> \+ '_\) ==> &mut Node
//@ contract
    ensures r is Some == (index < old(self).inner.tree().kids.len()),
      match r {
        Some(c) => c.tree() == old(self).inner.tree().kids[index as int] && final(self).inner.tree() == (Tree { kids: old(self).inner.tree().kids.update(index as int, final(c).tree()), ..old(self).inner.tree() })
            && (forall|p: Seq<int>| #[trigger] c.lit(p) == old(self).inner.lit(seq![index as int] + p))
            && (forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == if p.len() > 0 && p[0] == index { final(c).lit(p.drop_first()) } else { old(self).inner.lit(p) }),
        None => *final(self) == *old(self),
      },
//@ end
//@ extract crates/textual/src/containers/vertical_scroll.rs fn Widget for VerticalScroll::child_count
//@ ret r
//@ contract
    ensures r == self.inner.tree().kids.len(),
//@ end
//@ extract crates/textual/src/containers/vertical_scroll.rs fn Widget for VerticalScroll::is_focusable
//@ ret r
//@ contract
    ensures r == self.inner.tree().takes,
//@ end
}
pub struct Label { pub inner: Node }
impl Label {
//@ extract crates/textual/src/widget/label.rs fn crate::Widget for Label::count_focusable
//@ ret r
//@ contract
    ensures r == count(self.inner.tree()),
//@ end
//@ extract crates/textual/src/widget/label.rs fn crate::Widget for Label::clear_focus
//@ contract
    ensures final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| !#[trigger] final(self).inner.lit(p),
//@ end
//@ extract crates/textual/src/widget/label.rs fn crate::Widget for Label::focus_nth
//@ ret r
//@ contract
    requires n < count(old(self).inner.tree()),
    ensures r, final(self).inner.tree() == old(self).inner.tree(), forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == (old(self).inner.lit(p) || p == path_to(old(self).inner.tree(), n as int)),
//@ end
//@ extract crates/textual/src/widget/label.rs fn crate::Widget for Label::get_child_mut
//@ ret r
//@ sub SIG:&mut \(dyn crate::Widget<M> \+ '_\) ==> &mut Node
//@ contract
    ensures r is Some == (index < old(self).inner.tree().kids.len()),
      match r {
        Some(c) => c.tree() == old(self).inner.tree().kids[index as int] && final(self).inner.tree() == (Tree { kids: old(self).inner.tree().kids.update(index as int, final(c).tree()), ..old(self).inner.tree() })
            && (forall|p: Seq<int>| #[trigger] c.lit(p) == old(self).inner.lit(seq![index as int] + p))
            && (forall|p: Seq<int>| #[trigger] final(self).inner.lit(p) == if p.len() > 0 && p[0] == index { final(c).lit(p.drop_first()) } else { old(self).inner.lit(p) }),
        None => *final(self) == *old(self),
      },
//@ end
//@ extract crates/textual/src/widget/label.rs fn crate::Widget for Label::child_count
//@ ret r
//@ contract
    ensures r == self.inner.tree().kids.len(),
//@ end
//@ extract crates/textual/src/widget/label.rs fn crate::Widget for Label::is_focusable
//@ ret r
//@ contract
    ensures r == self.inner.tree().takes,
//@ end
}
}
