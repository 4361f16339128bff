use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- what is sent
#[verifier::external_body] pub struct Message { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { x: u8 }
/// the sending end of the application's channel (all clones of it are the same channel)
#[verifier::external_body] pub struct SenderEnd { x: u8 }
impl SenderEnd { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Gone { pub x: u8 }
pub struct Envelope { pub message: Message, pub sender_id: Option<String>, pub sender_type: String, pub bubbling: bool }
pub struct Env { pub message: Message, pub id: Option<Seq<char>>, pub type_name: Seq<char> }
pub open spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn env(e: Envelope) -> Env { Env { message: e.message, id: text(e.sender_id), type_name: e.sender_type@ } }
/// what went into which channel, in that order (tokio's channel hands it on in that order, each once)
#[verifier::external_body] pub struct Outbox { x: u8 }
impl Outbox {
    pub uninterp spec fn sent(self) -> Seq<(SenderEnd, Env)>;
    #[verifier::external_body] fn send(&mut self, s: &SenderEnd, e: Envelope) -> (r: Result<(), Gone>) ensures final(self).sent() == old(self).sent().push((*s, env(e))) { unimplemented!() }
}
#[verifier::external_body] fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
fn own(o: Option<&str>) -> (r: Option<String>) ensures text(r) == (match o { Some(s) => Some(s@), None => None }) { match o { Some(s) => Some(owned(s)), None => None } }
fn copied(o: &Option<String>) -> (r: Option<String>) ensures text(r) == text(*o) { match o { Some(s) => Some(owned(s.as_str())), None => None } }
fn deref(o: &Option<String>) -> (r: Option<&str>) ensures text(*o) == (match r { Some(s) => Some(s@), None => None }) { match o { Some(s) => Some(s.as_str()), None => None } }
impl Envelope {
//@ extract crates/textual/src/message.rs fn MessageEnvelope::new
//@ ret r
//@ sub SIG:message: M ==> message: Message
//@ sub sender_id\.map\(String::from\) ==> own(sender_id)
//@ sub sender_type\.to_string\(\) ==> owned(sender_type)
//@ contract
    ensures env(r) == (Env { message, id: match sender_id { Some(s) => Some(s@), None => None }, type_name: sender_type@ }), r.bubbling,
//@ end
//@ extract crates/textual/src/message.rs fn MessageEnvelope::stop
//@ contract
    ensures env(*final(self)) == env(*old(self)), !final(self).bubbling,
//@ end
//@ extract crates/textual/src/message.rs fn MessageEnvelope::is_bubbling
//@ ret r
//@ contract
    ensures r == self.bubbling,
//@ end
}

// ---------------------------------------------------------------- time
#[verifier::external_body] fn sleep(d: Duration) { unimplemented!() }
/// the ticks of an interval and its cancellation
#[verifier::external_body] pub struct Clock { x: u8 }
impl Clock {
    pub uninterp spec fn ticks(self) -> nat;
    /// the cancellation has come: the interval ends there
    pub uninterp spec fn stopped(self) -> bool;
    /// select! between the next tick and the cancellation
    #[verifier::external_body] fn next(&mut self) -> (r: u8)
        requires !old(self).stopped(),
        ensures final(self).stopped() == (r != 0), r == 0 ==> final(self).ticks() == old(self).ticks() + 1, r != 0 ==> final(self).ticks() == old(self).ticks() { unimplemented!() }
}
/// the function that makes the messages of an interval
#[verifier::external_body] pub struct Maker { x: u8 }
impl Maker {
    pub uninterp spec fn made(self) -> Seq<Message>;
    #[verifier::external_body] fn call(&mut self) -> (r: Message) ensures final(self).made() == old(self).made().push(r) { unimplemented!() }
}

// ---------------------------------------------------------------- the contexts
pub struct AppContext { pub sender: SenderEnd, pub sender_id: Option<String>, pub sender_type: String }
impl AppContext {
    /// a message as this context sends it
    pub open spec fn signed(self, m: Message) -> (SenderEnd, Env) { (self.sender, Env { message: m, id: text(self.sender_id), type_name: self.sender_type@ }) }
//@ extract crates/textual/src/context.rs fn AppContext::new
//@ ret r
//@ sub SIG:mpsc::UnboundedSender<MessageEnvelope<M>> ==> SenderEnd
//@ sub "AppContext"\.to_string\(\) ==> owned("AppContext")
//@ contract
    ensures r.sender == sender, r.sender_id is None,
//@ end
//@ extract crates/textual/src/context.rs fn AppContext::with_sender_info
//@ ret r
//@ sub SIG:mut self ==> self
//@ sub \bself\b ==> this
//@ sub id\.map\(String::from\) ==> own(id)
//@ sub type_name\.to_string\(\) ==> owned(type_name)
//@ contract
    ensures r.sender == self.sender, text(r.sender_id) == (match id { Some(s) => Some(s@), None => None }), r.sender_type@ == type_name@,
//@ start
    let mut this = self;
//@ end
//@ extract crates/textual/src/context.rs fn AppContext::sender
//@ ret r
//@ sub SIG:mpsc::UnboundedSender<MessageEnvelope<M>> ==> SenderEnd
//@ contract
    ensures r == self.sender,
//@ end
//@ extract crates/textual/src/context.rs fn AppContext::post
//@ sub SIG:message: M ==> message: Message, out: &mut Outbox
//@ sub MessageEnvelope::new ==> Envelope::new
//@ sub self\.sender_id\.as_deref\(\) ==> deref(&self.sender_id)
//@ sub &self\.sender_type\) ==> self.sender_type.as_str())
//@ sub let _ = self\.sender\.send\(envelope\) ==> let _ = out.send(&self.sender, envelope)
//@ contract
    ensures final(out).sent() == old(out).sent().push(self.signed(message)),
//@ end
/// the task is read as the code it runs
//@ extract crates/textual/src/context.rs fn AppContext::set_timer
//@ sub SIG:message: M ==> message: Message, out: &mut Outbox
//@ sub? log::\w+!\((?:[^()]|\([^()]*\))*\) ==> ()
//@ sub tokio::spawn\(async move (\{.*\})\); ==> \1
//@ sub tokio::time::sleep\(delay\)\.await ==> sleep(delay)
//@ sub self\.sender_id\.clone\(\) ==> copied(&self.sender_id)
//@ sub self\.sender_type\.clone\(\) ==> owned(self.sender_type.as_str())
//@ sub MessageEnvelope::new ==> Envelope::new
//@ sub sender_id\.as_deref\(\) ==> deref(&sender_id)
//@ sub &sender_type\) ==> sender_type.as_str())
//@ sub sender\.send\(envelope\) ==> out.send(&sender, envelope)
//@ contract
    ensures final(out).sent() == old(out).sent().push(self.signed(message)),
//@ end
/// the task of an interval until it is cancelled (or nobody listens any more)
#[verifier::exec_allows_no_decreases_clause]
//@ extract crates/textual/src/context.rs fn AppContext::set_interval
//@ sub SIG:set_interval<F> ==> set_interval
//@ sub SIG:message_fn: F ==> message_fn: &mut Maker, out: &mut Outbox, clock: &mut Clock
//@ sub SIG:-> IntervalHandle ==>
//@ sub SIG:where.* ==>
//@ sub? log::\w+!\((?:[^()]|\([^()]*\))*\) ==> ()
//@ sub let \(cancel_tx, mut cancel_rx\) = tokio::sync::oneshot::channel\(\); ==>
//@ sub IntervalHandle \{\s*cancel_tx: Some\(cancel_tx\),\s*\} ==>
//@ sub tokio::spawn\(async move (\{.*\})\); ==> \1
//@ sub let start = tokio::time::Instant::now\(\) \+ interval;\s*let mut ticker = tokio::time::interval_at\(start, interval\); ==>
//@ sub tokio::select! \{ ==> { let which = clock.next();
//@ sub _ = ticker\.tick\(\) => \{ ==> if which == 0 {
//@ sub _ = &mut cancel_rx => \{ ==> if which != 0 {
//@ sub message_fn\(\) ==> message_fn.call()
//@ sub self\.sender_id\.clone\(\) ==> copied(&self.sender_id)
//@ sub self\.sender_type\.clone\(\) ==> owned(self.sender_type.as_str())
//@ sub MessageEnvelope::new ==> Envelope::new
//@ sub sender_id\.as_deref\(\) ==> deref(&sender_id)
//@ sub &sender_type\) ==> sender_type.as_str())
//@ sub sender\.send\(envelope\) ==> out.send(&sender, envelope)
//@ nloops 1
//@ contract
    requires old(message_fn).made().len() == 0, old(clock).ticks() == 0, !old(clock).stopped(),
    ensures
        final(message_fn).made().len() == final(clock).ticks(),
        final(out).sent() == old(out).sent() + sent_of(*self, final(message_fn).made()),
//@ loop 1
    invariant_except_break !clock.stopped(),
    invariant
        message_fn.made().len() == clock.ticks(), sender == self.sender, text(sender_id) == text(self.sender_id), sender_type@ == self.sender_type@,
        out.sent() == old(out).sent() + sent_of(*self, message_fn.made()),
//@ end
}
/// a message for every tick, in order
pub open spec fn sent_of(c: AppContext, m: Seq<Message>) -> Seq<(SenderEnd, Env)> { m.map_values(|x: Message| c.signed(x)) }
#[verifier::external_body] pub struct Tree { x: u8 }
/// what both contexts are made of
pub struct EventContext<'a> { pub app_ctx: AppContext, pub tree: &'a mut Tree }
impl<'a> EventContext<'a> {
//@ extract crates/textual/src/context.rs fn EventContext::app_context
//@ ret r
//@ sub SIG:AppContext<M> ==> AppContext
//@ contract
    ensures *r == self.app_ctx,
//@ end
//@ extract crates/textual/src/context.rs fn EventContext::post
//@ sub SIG:message: M ==> message: Message, out: &mut Outbox
//@ sub post\(message\) ==> post(message, out)
//@ contract
    ensures final(out).sent() == old(out).sent().push(self.app_ctx.signed(message)),
//@ end
//@ extract crates/textual/src/context.rs fn EventContext::set_timer
//@ sub SIG:message: M ==> message: Message, out: &mut Outbox
//@ sub set_timer\(delay, message\) ==> set_timer(delay, message, out)
//@ contract
    ensures final(out).sent() == old(out).sent().push(self.app_ctx.signed(message)),
//@ end
//@ extract crates/textual/src/context.rs fn EventContext::set_interval
//@ sub SIG:set_interval<F> ==> set_interval
//@ sub SIG:message_fn: F ==> message_fn: &mut Maker, out: &mut Outbox, clock: &mut Clock
//@ sub SIG:-> IntervalHandle ==>
//@ sub SIG:where.* ==>
//@ sub set_interval\(interval, message_fn\) ==> set_interval(interval, message_fn, out, clock)
//@ contract
    requires old(message_fn).made().len() == 0, old(clock).ticks() == 0, !old(clock).stopped(),
    ensures
        final(message_fn).made().len() == final(clock).ticks(),
        final(out).sent() == old(out).sent() + sent_of(self.app_ctx, final(message_fn).made()),
//@ end
//@ extract crates/textual/src/context.rs fn EventContext::sender
//@ ret r
//@ sub SIG:mpsc::UnboundedSender<MessageEnvelope<M>> ==> SenderEnd
//@ contract
    ensures r == self.app_ctx.sender,
//@ end
}
pub struct MountContext<'a> { pub app_ctx: AppContext, pub tree: &'a mut Tree }
impl<'a> MountContext<'a> {
//@ extract crates/textual/src/context.rs fn MountContext::app_context
//@ ret r
//@ sub SIG:AppContext<M> ==> AppContext
//@ contract
    ensures *r == self.app_ctx,
//@ end
//@ extract crates/textual/src/context.rs fn MountContext::post
//@ sub SIG:message: M ==> message: Message, out: &mut Outbox
//@ sub post\(message\) ==> post(message, out)
//@ contract
    ensures final(out).sent() == old(out).sent().push(self.app_ctx.signed(message)),
//@ end
//@ extract crates/textual/src/context.rs fn MountContext::set_timer
//@ sub SIG:message: M ==> message: Message, out: &mut Outbox
//@ sub set_timer\(delay, message\) ==> set_timer(delay, message, out)
//@ contract
    ensures final(out).sent() == old(out).sent().push(self.app_ctx.signed(message)),
//@ end
//@ extract crates/textual/src/context.rs fn MountContext::set_interval
//@ sub SIG:set_interval<F> ==> set_interval
//@ sub SIG:message_fn: F ==> message_fn: &mut Maker, out: &mut Outbox, clock: &mut Clock
//@ sub SIG:-> IntervalHandle ==>
//@ sub SIG:where.* ==>
//@ sub set_interval\(interval, message_fn\) ==> set_interval(interval, message_fn, out, clock)
//@ contract
    requires old(message_fn).made().len() == 0, old(clock).ticks() == 0, !old(clock).stopped(),
    ensures
        final(message_fn).made().len() == final(clock).ticks(),
        final(out).sent() == old(out).sent() + sent_of(self.app_ctx, final(message_fn).made()),
//@ end
//@ extract crates/textual/src/context.rs fn MountContext::sender
//@ ret r
//@ sub SIG:mpsc::UnboundedSender<MessageEnvelope<M>> ==> SenderEnd
//@ contract
    ensures r == self.app_ctx.sender,
//@ end
}
/// the handle of an interval: cancelling it (or losing it) tells its clock, once
pub struct Bell { pub rung: Ghost<bool> }
#[verifier::external_body] pub struct Rings { x: u8 }
impl Rings { pub uninterp spec fn rung(self) -> nat; #[verifier::external_body] fn send(&mut self, b: Bell) ensures final(self).rung() == old(self).rung() + 1 { unimplemented!() } }
pub struct IntervalHandle { pub cancel_tx: Option<Bell> }
impl IntervalHandle {
//@ extract crates/textual/src/context.rs fn IntervalHandle::cancel
//@ sub SIG:&mut self ==> &mut self, rings: &mut Rings
//@ sub tx\.send\(\(\)\) ==> rings.send(tx)
//@ contract
    ensures final(self).cancel_tx is None, final(rings).rung() == old(rings).rung() + (if old(self).cancel_tx is Some { 1nat } else { 0nat }),
//@ end
//@ extract crates/textual/src/context.rs fn Drop for IntervalHandle::drop
//@ sub SIG:fn drop\(&mut self\) ==> fn lost(&mut self, rings: &mut Rings)
//@ sub self\.cancel\(\) ==> self.cancel(rings)
//@ contract
    ensures final(rings).rung() == old(rings).rung() + (if old(self).cancel_tx is Some { 1nat } else { 0nat }),
//@ end
}
}
