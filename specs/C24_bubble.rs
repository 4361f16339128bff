use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- a message on its way up
#[verifier::external_body] pub struct Message { x: u8 }
#[verifier::external_body] pub struct Id { x: u8 }
#[verifier::external_body] pub struct TypeName { x: u8 }
/// a message with its sender
pub struct Env { pub message: Message, pub sender_id: Option<Id>, pub sender_type: TypeName }
/// a widget met on the way: where it is, what it saw, what it left of it, what it answered, whether it lets the message go on
pub struct Met { pub place: Seq<int>, pub seen: Env, pub left: Env, pub said: Option<Message>, pub on: bool }
pub open spec fn after(m: Met) -> Env { match m.said { Some(x) => Env { message: x, ..m.left }, None => m.left } }
pub struct Envelope { pub message: Message, pub sender_id: Option<Id>, pub sender_type: TypeName, pub bubbling: bool, pub met: Ghost<Seq<Met>> }
impl Envelope {
    pub open spec fn env(self) -> Env { Env { message: self.message, sender_id: self.sender_id, sender_type: self.sender_type } }
//@ extract crates/textual/src/message.rs fn MessageEnvelope::is_bubbling
//@ ret r
//@ contract
    ensures r == self.bubbling,
//@ end
}

// ---------------------------------------------------------------- the widgets around it
/// how many children there are in the widget at a place (handlers do not take the tree apart while a message is on its way)
pub uninterp spec fn wide(p: Seq<int>) -> nat;
pub open spec fn leads(p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < wide(p.take(i)) }
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
proof fn lemma_leads_take(p: Seq<int>, n: int) requires leads(p), 0 <= n <= p.len(), ensures leads(p.take(n))
{ assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] p.take(n)[i] < wide(p.take(n).take(i)) by { assert(p.take(n).take(i) =~= p.take(i)); assert(p[i] < wide(p.take(i))); } }
#[verifier::external_body] pub struct Node { x: u8 }
impl Node {
    pub uninterp spec fn place(&self) -> Seq<int>;
    #[verifier::external_body]
    fn get_child_mut(&mut self, index: usize) -> (r: Option<&mut Node>)
        ensures r is Some == (index < wide(old(self).place())), match r { Some(c) => c.place() == old(self).place().push(index as int), None => true },
    { unimplemented!() }
    /// any handler: it may answer, change the message or stop it
    #[verifier::external_body]
    fn handle_message(&mut self, e: &mut Envelope) -> (r: Option<Message>)
        ensures final(e).met@ == old(e).met@.push(Met { place: old(self).place(), seen: old(e).env(), left: final(e).env(), said: r, on: final(e).bubbling }),
    { unimplemented!() }
}
//@ extract crates/textual/src/tree.rs fn navigate_and_handle
//@ ret r
//@ sub SIG:mut widget: &mut dyn Widget<M> ==> root: &mut Node
//@ sub SIG:MessageEnvelope<M> ==> Envelope
//@ sub SIG:Option<M> ==> Option<Message>
//@ sub SIG:<M> ==>
//@ sub for &index in path \{ ==> for k in 0..path.len() { let index = path[k];
//@ nloops 1
//@ contract
    requires leads(ints(path@)), old(root).place() == Seq::<int>::empty(),
    ensures final(envelope).met@ == old(envelope).met@.push(Met { place: ints(path@), seen: old(envelope).env(), left: final(envelope).env(), said: r, on: final(envelope).bubbling }),
//@ start
    let ghost p = ints(path@);
    let mut widget: &mut Node = root;
//@ loop 1
    invariant p == ints(path@), leads(p), widget.place() == p.take(k as int), *envelope == *old(envelope),
//@ loop_start 1
    proof { assert(p[k as int] < wide(p.take(k as int))); assert(p.take(k as int).push(p[k as int]) =~= p.take(k + 1)); }
//@ before_loop 1
    proof { assert(p.take(0) =~= Seq::<int>::empty()); }
//@ after_loop 1
    proof { assert(p.take(p.len() as int) =~= p); }
//@ end
/// the message went from the focused widget outwards: the widgets around it met it one after the other, each as the one before left it,
/// until one of them stopped it or none was left
pub open spec fn carried(p: Seq<int>, before: Envelope, m: Seq<Met>, r: Envelope) -> bool {
    &&& m.len() <= p.len()
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).place == p.take(p.len() - 1 - i)
    &&& forall|i: int| 0 <= i < m.len() - 1 ==> (#[trigger] m[i]).on
    &&& m.len() > 0 ==> before.bubbling && m[0].seen == before.env() && r.env() == after(m.last()) && r.bubbling == m.last().on
    &&& m.len() == 0 ==> r.env() == before.env() && r.bubbling == before.bubbling
    &&& forall|i: int| 0 < i < m.len() ==> (#[trigger] m[i]).seen == after(m[i - 1])
    &&& m.len() < p.len() ==> !r.bubbling
}
pub struct FocusPath { pub indices: Vec<usize> }
#[verifier::external_body] pub struct Root { x: u8 }
impl Root { #[verifier::external_body] fn as_mut(&mut self) -> (r: &mut Node) ensures r.place() == Seq::<int>::empty() { unimplemented!() } }
pub struct WidgetTree { pub root: Root, pub focus_path: FocusPath }
fn head(v: &Vec<usize>, n: usize) -> (r: Vec<usize>) requires n <= v@.len(), ensures r@ == v@.take(n as int)
{
    let mut r: Vec<usize> = Vec::new(); let mut i = 0;
    while i < n invariant i <= n <= v@.len(), r@ == v@.take(i as int), decreases n - i { r.push(v[i]); i = i + 1; proof { assert(r@ =~= v@.take(i as int)); } }
    r
}
fn copy(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { proof { assert(v@.take(v@.len() as int) =~= v@); } head(v, v.len()) }
impl WidgetTree {
//@ extract crates/textual/src/tree.rs fn WidgetTree::bubble_message
//@ ret r
//@ sub SIG:mut envelope: MessageEnvelope<M> ==> before: Envelope
//@ sub SIG:MessageEnvelope<M> ==> Envelope
//@ sub self\.focus_path\.indices\.clone\(\) ==> copy(&self.focus_path.indices)
//@ sub for depth in \(0\.\.path\.len\(\)\)\.rev\(\) \{ ==> let mut depth = path.len(); while depth > 0 { depth = depth - 1;
//@ sub &path\[\.\.depth\] ==> head(&path, depth)
//@ sub ancestor_path, ==> ancestor_path.as_slice(),
//@ nloops 1
//@ contract
    requires leads(ints(old(self).focus_path.indices@)), before.met@.len() == 0,
    ensures carried(ints(old(self).focus_path.indices@), before, r.met@, r),
        final(self).focus_path == old(self).focus_path,
//@ start
    let ghost p = ints(self.focus_path.indices@); let ghost was = before;
    let mut envelope = before;
//@ loop 1
    invariant_except_break envelope.met@.len() == path@.len() - depth,
        depth == path@.len() ==> envelope == was, depth < path@.len() ==> envelope.env() == after(envelope.met@.last()) && envelope.bubbling == envelope.met@.last().on,
    invariant depth <= path@.len(), p == ints(path@), leads(p), self.focus_path == old(self).focus_path,
        was == before, was.met@.len() == 0,
        envelope.met@.len() <= p.len(),
        forall|i: int| 0 <= i < envelope.met@.len() ==> (#[trigger] envelope.met@[i]).place == p.take(p.len() - 1 - i),
        forall|i: int| 0 <= i < envelope.met@.len() - 1 ==> (#[trigger] envelope.met@[i]).on,
        forall|i: int| 0 < i < envelope.met@.len() ==> (#[trigger] envelope.met@[i]).seen == after(envelope.met@[i - 1]),
        envelope.met@.len() > 0 ==> was.bubbling && envelope.met@[0].seen == was.env() && envelope.env() == after(envelope.met@.last()) && envelope.bubbling == envelope.met@.last().on,
        envelope.met@.len() == 0 ==> envelope == was,
    ensures envelope.met@.len() == path@.len() || !envelope.bubbling,
    decreases depth,
//@ loop_start 1
    proof { let d = depth - 1; lemma_leads_take(p, d); assert(ints(path@.take(d)) =~= p.take(d)); }
//@ before_loop 1
    proof { assert(p =~= ints(path@)); }
//@ end
}
}
