use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- messages
#[verifier::external_body] pub struct Message { x: u8 }
#[verifier::external_body] pub struct Id { x: u8 }
#[verifier::external_body] pub struct TypeName { x: u8 }
/// a message with its sender
pub struct Env { pub message: Message, pub sender_id: Option<Id>, pub sender_type: TypeName }
pub struct Envelope { pub message: Message, pub sender_id: Option<Id>, pub sender_type: TypeName, pub bubbling: bool }
pub struct Sender { pub id: Option<Id>, pub type_name: TypeName }
impl Envelope {
    pub open spec fn env(self) -> Env { Env { message: self.message, sender_id: self.sender_id, sender_type: self.sender_type } }
    fn new(message: Message, id: Option<Id>, type_name: TypeName) -> (r: Self) ensures r.env() == (Env { message, sender_id: id, sender_type: type_name })
    { Envelope { message, sender_id: id, sender_type: type_name, bubbling: true } }
}
/// the receiving end: what was taken out, in the order it was put in (tokio's channel: first in, first out, each once)
#[verifier::external_body] pub struct Receiver { x: u8 }
#[verifier::external_body] pub struct SenderEnd { x: u8 }
impl Receiver {
    pub uninterp spec fn taken(self) -> Seq<Env>;
    #[verifier::external_body] fn recv(&mut self) -> (r: Envelope) ensures final(self).taken() == old(self).taken().push(r.env()) { unimplemented!() }
}
#[verifier::external_body] fn channel() -> (r: (SenderEnd, Receiver)) ensures r.1.taken().len() == 0 { unimplemented!() }

// ---------------------------------------------------------------- what the loop works on
#[verifier::external_body] pub struct Stylesheet { x: u8 }
#[verifier::external_body] pub struct Theme { x: u8 }
#[verifier::external_body] pub struct Ancestors { x: u8 }
#[verifier::external_body] pub struct EventStream { x: u8 }
#[verifier::external_body] pub struct Ticker { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Instant { x: u8 }
#[verifier::external_body] pub struct TextualError { x: u8 }
#[verifier::external_body] pub struct IoError { x: u8 }
#[verifier::external_body] pub struct Text { x: u8 }
#[verifier::external_body] pub struct Action { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct MouseEvent { x: u8 }
pub enum KeyCode { Tab, BackTab, Other(u32) }
impl Clone for KeyCode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for KeyCode {}
pub struct KeyEvent { pub code: KeyCode }
pub enum Event { Key(KeyEvent), Resize(u16, u16), Mouse(MouseEvent), Other }
/// what the tree looks like on a screen of that size
pub uninterp spec fn picture(t: WidgetTree, w: u16, h: u16) -> Picture;
#[verifier::external_body] pub struct Picture { x: u8 }
#[verifier::external_body] pub struct Canvas { x: u8 }
impl Canvas {
    pub uninterp spec fn width(self) -> u16;
    pub uninterp spec fn height(self) -> u16;
    pub uninterp spec fn drawn(self) -> Picture;
    /// what the terminal shows
    pub uninterp spec fn screen(self) -> Picture;
    #[verifier::external_body] fn new(w: u16, h: u16) -> (r: Canvas) ensures r.width() == w, r.height() == h { unimplemented!() }
    #[verifier::external_body] fn clear(&mut self) ensures final(self).width() == old(self).width(), final(self).height() == old(self).height() { unimplemented!() }
    /// C03
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<(), TextualError>)
        ensures final(self).width() == old(self).width(), final(self).height() == old(self).height(), r is Ok ==> final(self).screen() == old(self).drawn() { unimplemented!() }
}
#[verifier::external_body] pub struct WidgetTree { x: u8 }
/// what the widgets around the focused one make of a message
pub uninterp spec fn carried(t: WidgetTree, e: Env) -> Env;
/// the terminal shows the tree as it is now
pub open spec fn current(c: Canvas, t: WidgetTree, w: u16, h: u16) -> bool { c.screen() == picture(t, w, h) }
impl WidgetTree {
    pub uninterp spec fn focused(self) -> Sender;
    #[verifier::external_body] fn on_resize(&mut self, w: u16, h: u16) { unimplemented!() }
    #[verifier::external_body] fn focus(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn style(&mut self, s: &Stylesheet, t: &Theme) { unimplemented!() }
    #[verifier::external_body] fn restyle(&mut self, s: &Stylesheet, t: &Theme) { unimplemented!() }
    #[verifier::external_body] fn draw(&self, c: &mut Canvas, w: u16, h: u16)
        requires old(c).width() == w, old(c).height() == h, ensures final(c).width() == w, final(c).height() == h, final(c).drawn() == picture(*self, w, h) { unimplemented!() }
    /// C16; when nothing can take focus, what had it is hidden, and losing it shows no difference
    #[verifier::external_body] fn focus_is_valid(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn set_focus_index(&mut self, n: usize) -> (r: bool)
        ensures !r && n == 0 ==> forall|w: u16, h: u16| #[trigger] picture(*final(self), w, h) == picture(*old(self), w, h) { unimplemented!() }
    #[verifier::external_body] fn focus_next(&mut self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn focus_previous(&mut self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn dispatch_key(&mut self, k: KeyCode) -> Option<Message> { unimplemented!() }
    #[verifier::external_body] fn focused_sender_info(&self) -> (r: Sender) ensures r == self.focused() { unimplemented!() }
    /// the widgets around the sender meet the message and may change it (C24_bubble.rs)
    #[verifier::external_body] fn bubble_message(&mut self, e: Envelope) -> (r: Envelope) ensures r.env() == carried(*old(self), e.env()) { unimplemented!() }
    #[verifier::external_body] fn on_mouse_with_sender(&mut self, e: MouseEvent, w: u16, h: u16) -> Option<(Message, Sender)> { unimplemented!() }
    #[verifier::external_body] fn palette_mouse(&mut self, e: MouseEvent, w: u16, h: u16) -> Option<(Message, Sender)> { unimplemented!() }
    #[verifier::external_body] fn palette_open(&mut self) -> (r: Option<bool>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn take_restore_focus(&mut self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn pending_actions(&mut self) -> Vec<Action> { unimplemented!() }
    #[verifier::external_body] fn clear_all_hover(&mut self) { unimplemented!() }
    #[verifier::external_body] fn hovered_tooltip(&mut self) -> Option<Text> { unimplemented!() }
    #[verifier::external_body] fn tooltip_hide(&mut self) -> (r: Option<()>) ensures r is None ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn tooltip_show(&mut self, text: Text, mx: i32, my: i32) -> (r: Option<()>) ensures r is None ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn palette_updates(&mut self) -> (r: Option<bool>) ensures r != Some(true) ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn palette_tick(&mut self) -> (r: Option<bool>) ensures r != Some(true) ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn palette_events(&mut self) -> (r: Vec<PaletteEvent>) ensures r@.len() == 0 ==> *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body] pub struct PaletteEvent { x: u8 }

// ---------------------------------------------------------------- the application
#[verifier::external_body] pub struct Application { x: u8 }
#[verifier::external_body] fn palette_enabled() -> bool { unimplemented!() }
#[verifier::external_body] fn is_palette_key(k: &KeyEvent) -> bool { unimplemented!() }
#[verifier::external_body] fn terminal_size() -> (r: Result<(u16, u16), TextualError>) { unimplemented!() }
#[verifier::external_body] fn dark_theme() -> Theme { unimplemented!() }
#[verifier::external_body] fn now() -> Instant { unimplemented!() }
#[verifier::external_body] fn reached(d: Instant) -> bool { unimplemented!() }
#[verifier::external_body] fn ticker() -> Ticker { unimplemented!() }
#[verifier::external_body] fn event_stream() -> EventStream { unimplemented!() }
#[verifier::external_body] fn is_move(e: &MouseEvent) -> bool { unimplemented!() }
#[verifier::external_body] fn place(e: &MouseEvent) -> (i32, i32) { unimplemented!() }
#[verifier::external_body] fn same_place(a: &Option<(i32, i32)>, b: (i32, i32)) -> bool { unimplemented!() }
#[verifier::external_body] fn same_text(a: &Option<Text>, b: &Text) -> bool { unimplemented!() }
#[verifier::external_body] fn text_copy(a: &Option<Text>) -> Option<Text> { unimplemented!() }
#[verifier::external_body] fn io_error(e: IoError) -> TextualError { unimplemented!() }
impl EventStream { #[verifier::external_body] fn next(&mut self) -> Option<Result<Event, IoError>> { unimplemented!() } }
/// select!: goes to sleep until one of its branches is ready. Before that the screen has to be current and everything that was due handled.
#[verifier::external_body] fn wait(c: &Canvas, t: &WidgetTree, w: u16, h: u16, app: &Application, due: Ghost<Seq<Env>>) -> u8
    requires current(*c, *t, w, h), app.handled() == due@, { unimplemented!() }
//@ extract crates/textual/src/lib.rs fn drain_command_palette
//@ ret r
//@ sub SIG:<M, A>\( ==> (
//@ sub SIG:app: &mut A ==> app: &mut Application
//@ sub SIG:tree: &mut WidgetTree<M>,\s*tx: &mpsc::UnboundedSender<MessageEnvelope<M>>, ==> tree: &mut WidgetTree,
//@ sub SIG:where.* ==>
//@ sub tree\s*\.query_one_as::<CommandPalette<M>, _, _>\("CommandPalette", \|palette\| \{\s*palette\.drain_updates\(\)\s*\}\) ==> tree.palette_updates()
//@ sub tree\s*\.query_one_as::<CommandPalette<M>, _, _>\("CommandPalette", \|palette\| palette\.tick\(\)\) ==> tree.palette_tick()
//@ sub tree\s*\.query_one_as::<CommandPalette<M>, _, _>\("CommandPalette", \|palette\| palette\.take_events\(\)\)\s*\.unwrap_or_default\(\) ==> tree.palette_events()
//@ sub needs_render \|= changed; ==> needs_render = needs_render || changed;
//@ sub events\.is_empty\(\) ==> (events.len() == 0)
//@ sub let event_ctx = AppContext::new\(tx\.clone\(\)\);\s*let mut ctx = EventContext::new\(event_ctx, tree\); ==>
//@ sub for event in events \{ ==> let mut at = 0; while at < events.len() { let event = &events[at]; at = at + 1;
//@ sub &mut ctx\) ==> tree)
//@ nloops 1
//@ contract
    ensures final(app).handled() == old(app).handled(), !r ==> *final(tree) == *old(tree),
//@ loop 1
    invariant app.handled() == old(app).handled(), at <= events@.len(), decreases events@.len() - at,
//@ end
impl Application {
    /// what was handed to handle_message, in that order
    pub uninterp spec fn handled(self) -> Seq<Env>;
    #[verifier::external_body] fn new_tree(&self, w: u16, h: u16) -> WidgetTree { unimplemented!() }
    #[verifier::external_body] fn stylesheet(t: &mut WidgetTree) -> Result<Stylesheet, TextualError> { unimplemented!() }
    #[verifier::external_body] fn focus_index(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn needs_recompose(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn should_quit(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn tooltip_deadline(&self) -> Instant { unimplemented!() }
    #[verifier::external_body] fn reset_quit(&mut self) ensures final(self).handled() == old(self).handled() { unimplemented!() }
    #[verifier::external_body] fn on_mount(&mut self, t: &mut WidgetTree) ensures final(self).handled() == old(self).handled() { unimplemented!() }
    #[verifier::external_body] fn on_key(&mut self, k: KeyCode, t: &mut WidgetTree) ensures final(self).handled() == old(self).handled() { unimplemented!() }
    #[verifier::external_body] fn dispatch_action(&mut self, a: &Action, t: &mut WidgetTree) ensures final(self).handled() == old(self).handled() { unimplemented!() }
    #[verifier::external_body] fn open_palette(&mut self, t: &mut WidgetTree) ensures final(self).handled() == old(self).handled() { unimplemented!() }
    #[verifier::external_body] fn on_command_palette_event(&mut self, e: &PaletteEvent, t: &mut WidgetTree) ensures final(self).handled() == old(self).handled() { unimplemented!() }
    #[verifier::external_body] fn handle_message(&mut self, e: Envelope, t: &mut WidgetTree) ensures final(self).handled() == old(self).handled().push(e.env()) { unimplemented!() }
    fn dispatch_all(&mut self, actions: &Vec<Action>, t: &mut WidgetTree) ensures final(self).handled() == old(self).handled()
    {
        let mut i = 0;
        while i < actions.len() invariant self.handled() == old(self).handled(), decreases actions@.len() - i { self.dispatch_action(&actions[i], t); i = i + 1; }
    }

/// the application runs until it is told to stop
#[verifier::exec_allows_no_decreases_clause]
//@ extract crates/textual/src/lib.rs fn App::event_loop_async
//@ ret r
//@ sub SIG:impl std::future::Future<Output = Result<\(\)>> \+ '_ ==> Result<(), TextualError>
//@ sub ^\{\s*async move (\{.*\})\s*\}\s*$ ==> \1
//@ sub let themes = tcss::types::Theme::standard_themes\(\);\s*let theme = themes.*?\}?\);\s*let \(mut cols ==> let theme = dark_theme(); let (mut cols
//@ sub terminal::size\(\)\? ==> match terminal_size() { Ok(v) => v, Err(e) => { return Err(e); } }
//@ sub let screen = Screen::new\(self\.compose\(\)\)\s*\.with_horizontal_breakpoints\(self\.horizontal_breakpoints\(\)\)\s*\.with_vertical_breakpoints\(self\.vertical_breakpoints\(\)\);\s*let mut root_children: Vec<Box<dyn Widget<Self::Message>>> =\s*vec!\[Box::new\(screen\)\];\s*root_children\.push\(Box::new\(Tooltip::new\(\)\)\);\s*if Self::ENABLE_COMMAND_PALETTE \{\s*root_children\.push\(Box::new\(CommandPalette::new\(\)\)\);\s*\}\s*let root = Box::new\(widget::app_widget::AppWidget::new\(root_children\)\);\s*(let mut )?tree = WidgetTree::new\(root\); ==> \1tree = self.new_tree(cols, rows);
//@ sub tree\.root_mut\(\)\.on_resize\(Size::new\((\w+), (\w+)\)\) ==> tree.on_resize(\1, \2)
//@ sub let combined_css = build_combined_css\(tree\.root_mut\(\), Self::CSS\);\s*let stylesheet = tcss::parser::parse_stylesheet\(&combined_css\)\s*\.map_err\(\|e\| TextualError::InvalidCss\(e\.to_string\(\)\)\)\?; ==> let stylesheet = match Self::stylesheet(&mut tree) { Ok(v) => v, Err(e) => { return Err(e); } };
//@ sub tree\.root_mut\(\)\.clear_focus\(\);\s*tree\.root_mut\(\)\.focus_nth\(([^;]*)\);\s*tree\.update_focus\([^;]*\); ==> tree.focus(\1);
//@ sub let mut ancestors = VecDeque::new\(\); ==>
//@ sub resolve_styles\(tree\.root_mut\(\), &stylesheet, &theme, &mut ancestors\); ==> tree.style(&stylesheet, &theme);
//@ sub resolve_dirty_styles\(\s*tree\.root_mut\(\),.*?\n\s*\); ==> tree.restyle(&stylesheet, &theme);
//@ sub mpsc::unbounded_channel::<MessageEnvelope<Self::Message>>\(\) ==> channel()
//@ sub let mount_app_ctx = AppContext::new\(tx\.clone\(\)\);\s*let mut mount_ctx = MountContext::new\(mount_app_ctx, &mut tree\); ==>
//@ sub self\.on_mount\(&mut mount_ctx\) ==> self.on_mount(&mut tree)
//@ sub EventStream::new\(\) ==> event_stream()
//@ sub tokio::time::interval\(Duration::from_millis\(\d+\)\) ==> ticker()
//@ sub Option<String> ==> Option<Text>
//@ sub let region = Region::from_u16\(0, 0, cols, rows\); ==>
//@ sub tree\.root\(\)\.render\(&mut canvas, region\) ==> tree.draw(&mut canvas, cols, rows)
//@ sub canvas\.flush\(\)\?; ==> match canvas.flush() { Ok(v) => {}, Err(e) => { return Err(e); } }
//@ sub tokio::select! \{ ==> { let which = wait(&canvas, &tree, cols, rows, &*self, Ghost(due));
//@ sub _ = tooltip_tick\.tick\(\) => \{ ==> if which == 0 {
//@ sub _ = palette_tick\.tick\(\) => \{ ==> if which == 1 {
//@ sub maybe_event = event_stream\.next\(\) => \{ ==> if which == 2 { let maybe_event = event_stream.next();
//@ sub Some\(envelope\) = rx\.recv\(\) => \{ ==> if which == 3 { let envelope = rx.recv(); proof { due = due.push(envelope.env()); }
//@ sub? log::\w+!\((?:[^()]|\([^()]*\))*\) ==> ()
//@ sub Instant::now\(\) >= deadline ==> reached(deadline)
//@ sub Instant::now\(\) \+ self\.tooltip_delay\(\) ==> self.tooltip_deadline()
//@ sub \(tooltip_text\.clone\(\), last_mouse_pos\) ==> (text_copy(&tooltip_text), last_mouse_pos)
//@ sub tree\.query_one_as::<Tooltip<Self::Message>, _, _>\(\s*"Tooltip",\s*\|tooltip\| \{\s*tooltip\.show\(text\);.*?tooltip\.set_position\(x, y\);\s*\},?\s*\) ==> tree.tooltip_show(text, mx, my)
//@ sub tree\s*\.query_one_as::<Tooltip<Self::Message>, _, _>\(\s*"Tooltip",\s*\|tooltip\| tooltip\.hide\(\),\s*\) ==> tree.tooltip_hide()
//@ sub tree\s*\.query_one_as::<CommandPalette<Self::Message>, _, _>\(\s*"CommandPalette",\s*\|palette\| palette\.is_open\(\),\s*\) ==> tree.palette_open()
//@ sub tree\s*\.query_one_as::<CommandPalette<Self::Message>, _, _>\(\s*"CommandPalette",\s*\|palette\| palette\.take_restore_focus\(\),\s*\)\s*\.flatten\(\) ==> tree.take_restore_focus()
//@ sub tree\s*\.query_one_as::<CommandPalette<Self::Message>, _, _>\(\s*"CommandPalette",\s*\|palette\| palette\.on_mouse_with_sender\(mouse_event, region\),\s*\)\s*\.flatten\(\) ==> tree.palette_mouse(mouse_event, cols, rows)
//@ sub tree\.root_mut\(\)\.on_mouse_with_sender\(mouse_event, region\) ==> tree.on_mouse_with_sender(mouse_event, cols, rows)
//@ sub drain_command_palette\(self, &mut tree, &tx\) ==> drain_command_palette(self, &mut tree)
//@ sub Self::ENABLE_COMMAND_PALETTE\s*&& matches_binding\(&key_event, Self::COMMAND_PALETTE_BINDING\) ==> palette_enabled() && is_palette_key(&key_event)
//@ sub let event_ctx =\s*AppContext::new\(tx\.clone\(\)\);\s*let mut ctx = EventContext::new\(event_ctx, &mut tree\); ==>
//@ sub self\.dispatch_action\("app\.command_palette", &mut ctx\) ==> self.open_palette(&mut tree)
//@ sub for action in actions \{\s*self\.dispatch_action\(&action, &mut ctx\);\s*\} ==> self.dispatch_all(&actions, &mut tree);
//@ sub &mut ctx\) ==> &mut tree)
//@ sub if let Some\(msg\) = tree\.dispatch_key\(key_event\.code\) \{ ==> if let Some(msg) = tree.dispatch_key(key_event.code) { proof { due = due.push(carried(tree, Env { message: msg, sender_id: tree.focused().id, sender_type: tree.focused().type_name })); }
//@ sub if let Some\(\(msg, sender\)\) = mouse_result \{ ==> if let Some((msg, sender)) = mouse_result { proof { due = due.push(Env { message: msg, sender_id: sender.id, sender_type: sender.type_name }); }
//@ sub MessageEnvelope::new\(msg, sender\.id\.as_deref\(\), sender\.type_name\) ==> Envelope::new(msg, sender.id, sender.type_name)
//@ sub collect_pending_actions_mut\(tree\.root_mut\(\)\) ==> tree.pending_actions()
//@ sub clear_all_hover\(tree\.root_mut\(\)\) ==> tree.clear_all_hover()
//@ sub find_hovered_tooltip_mut\(tree\.root_mut\(\)\) ==> tree.hovered_tooltip()
//@ sub matches!\(mouse_event\.kind, crossterm::event::MouseEventKind::Moved\) ==> is_move(&mouse_event)
//@ sub \(mouse_event\.column as i32, mouse_event\.row as i32\) ==> place(&mouse_event)
//@ sub last_mouse_pos != Some\(current_pos\) ==> !same_place(&last_mouse_pos, current_pos)
//@ sub tooltip_text\.as_ref\(\) != Some\(&text\) ==> !same_text(&tooltip_text, &text)
//@ sub TextualError::IO\(e\) ==> io_error(e)
//@ nloops 1
//@ contract
    requires old(self).handled().len() == 0,
//@ loop 1
    invariant_except_break !needs_render ==> current(canvas, tree, cols, rows),
    invariant self.handled() == due, canvas.width() == cols, canvas.height() == rows,
//@ before_loop 1
    let ghost mut due: Seq<Env> = Seq::empty();
//@ after_loop 1
    assert(self.handled() == due);
//@ end
}
}
