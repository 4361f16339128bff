use vstd::prelude::*;

verus! {
//@ include TEXT.rs
// ---------------------------------------------------------------- what the markup language is
pub enum Tok { Text(Seq<char>), Open(Seq<char>), Close(Option<Seq<char>>), Escaped(char) }
pub open spec fn marks(c: char) -> bool { c == '[' || c == '\\' }
pub open spec fn skip(s: Seq<char>, n: int) -> Seq<char> { if n < s.len() { s.subrange(n, s.len() as int) } else { seq![] } }
/// the characters in front of the next tag or escape
pub open spec fn run(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || marks(s[0]) { 0 } else { 1 + run(skip(s, 1)) } }
/// where the bracket that closes a tag stands, given what follows and how many are open
pub open spec fn scan(s: Seq<char>, d: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == '[' { more(scan(skip(s, 1), d + 1), 1) }
    else if s[0] == ']' { if d == 1 { Some(0int) } else { more(scan(skip(s, 1), d - 1), 1) } }
    else if s[0] == '\\' { more(scan(skip(s, 2), d), 2) }
    else { more(scan(skip(s, 1), d), 1) }
}
pub open spec fn more(o: Option<int>, n: int) -> Option<int> { match o { Some(i) => Some(i + n), None => None } }
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
pub open spec fn tag_tok(c: Seq<char>) -> Option<Tok> {
    if c.len() > 0 && c[0] == '/' { let n = trim(skip(c, 1)); Some(Tok::Close(if n.len() == 0 { None } else { Some(n) })) }
    else if c.len() == 0 { None } else { Some(Tok::Open(c)) }
}
/// the first token of a non-empty text and how many characters it takes; None where the markup is malformed
pub open spec fn first(s: Seq<char>) -> Option<(Tok, int)> {
    if s[0] == '[' {
        match scan(skip(s, 1), 1) { Some(n) => match tag_tok(skip(s, 1).subrange(0, n)) { Some(t) => Some((t, n + 2)), None => None }, None => None }
    } else if s[0] == '\\' {
        if s.len() > 1 && (s[1] == '[' || s[1] == ']' || s[1] == '\\') { Some((Tok::Escaped(s[1]), 2)) } else { None }
    } else { Some((Tok::Text(s.subrange(0, run(s))), run(s))) }
}
pub open spec fn lex(s: Seq<char>) -> Option<Seq<Tok>> decreases s.len() {
    if s.len() == 0 { Some(seq![]) } else {
        match first(s) { Some((t, n)) => if n <= 0 { None } else { match lex(skip(s, n)) { Some(v) => Some(seq![t] + v), None => None } }, None => None }
    }
}
proof fn lemma_run(s: Seq<char>)
    ensures 0 <= run(s) <= s.len(), run(s) < s.len() ==> marks(s[run(s)]), forall|i: int| 0 <= i < run(s) ==> !marks(#[trigger] s[i]), decreases s.len(),
{ if s.len() > 0 && !marks(s[0]) { lemma_run(skip(s, 1)); assert forall|i: int| 0 <= i < run(s) implies !marks(#[trigger] s[i]) by { if i > 0 { assert(skip(s, 1)[i - 1] == s[i]); } } } }
proof fn lemma_run_is(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), n < s.len() ==> marks(s[n]), forall|i: int| 0 <= i < n ==> !marks(#[trigger] s[i]), ensures run(s) == n, decreases s.len(),
{ if n > 0 { assert(!marks(s[0])); assert forall|i: int| 0 <= i < n - 1 implies !marks(#[trigger] skip(s, 1)[i]) by { assert(s[i + 1] == skip(s, 1)[i]); } lemma_run_is(skip(s, 1), n - 1); } }
proof fn lemma_scan(s: Seq<char>, d: int)
    requires d >= 1, ensures scan(s, d) is Some ==> 0 <= scan(s, d)->Some_0 < s.len() && s[scan(s, d)->Some_0] == ']', decreases s.len(),
{
    if s.len() > 0 {
        if s[0] == '[' { lemma_scan(skip(s, 1), d + 1); } else if s[0] == ']' { if d > 1 { lemma_scan(skip(s, 1), d - 1); } } else if s[0] == '\\' { lemma_scan(skip(s, 2), d); } else { lemma_scan(skip(s, 1), d); }
    }
}

// ---------------------------------------------------------------- the lexer
#[verifier::external_body] pub struct RichParseError { x: u8 }
#[verifier::external_body] fn bad() -> RichParseError { unimplemented!() }
pub
//@ extract crates/rich/src/parser/lexer.rs enum Token
//@ end
pub open spec fn tok(t: Token<'_>) -> Tok {
    match t { Token::Text(s) => Tok::Text(s@), Token::OpenTag(s) => Tok::Open(s@), Token::CloseTag(o) => Tok::Close(match o { Some(s) => Some(s@), None => None }), Token::EscapedBracket(c) => Tok::Escaped(c) }
}
#[verifier::external_body]
fn starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
fn trimmed_after_first(s: &str) -> (r: &str) requires s@.len() > 0 && len8(s@[0]) == 1, ensures r@ == trim(skip(s@, 1)) { s[1..].trim() }
#[verifier::external_body]
fn is_blank(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub
//@ extract crates/rich/src/parser/lexer.rs struct Lexer
//@ sub (input|pos): ==> pub \1:
//@ end
impl<'a> Lexer<'a> {
    pub open spec fn wf(self) -> bool { edge(self.input@, self.pos as int) && self.input@.len() < i32::MAX && bytes(self.input@) <= usize::MAX }
    pub open spec fn left(self) -> Seq<char> { rest(self.input@, self.pos as int) }
    /// n characters on
    pub open spec fn on(self, o: Lexer<'a>, n: int) -> bool { self.wf() && self.input == o.input && 0 <= n <= o.left().len() && nth(self.input@, self.pos as int) == nth(o.input@, o.pos as int) + n && self.left() == skip(o.left(), n) && self.pos >= o.pos }
    proof fn lemma_on(self, o: Lexer<'a>, p: Lexer<'a>, n: int, m: int) requires o.wf(), p.on(o, n), self.on(p, m), ensures self.on(o, n + m) { assert(skip(skip(o.left(), n), m) =~= skip(o.left(), n + m)); }
    proof fn lemma_here(self) requires self.wf(), ensures self.on(self, 0), 0 <= nth(self.input@, self.pos as int) <= self.input@.len(), off(self.input@, nth(self.input@, self.pos as int)) == self.pos, self.left().len() == self.input@.len() - nth(self.input@, self.pos as int)
    { assert(skip(self.left(), 0) =~= self.left()); }

//@ extract crates/rich/src/parser/lexer.rs fn Lexer::new
//@ ret r
//@ contract
    requires input@.len() < i32::MAX, bytes(input@) <= usize::MAX,
    ensures r.wf(), r.left() == input@, r.input == input,
//@ start
    proof { lemma_nth(input@, 0); assert(input@.subrange(0, input@.len() as int) =~= input@); }
//@ end
//@ extract crates/rich/src/parser/lexer.rs fn Lexer::remaining
//@ ret r
//@ sub &self\.input\[self\.pos\.\.\] ==> tail(self.input, self.pos)
//@ contract
    requires self.wf(), ensures r@ == self.left(),
//@ end
//@ extract crates/rich/src/parser/lexer.rs fn Lexer::peek
//@ ret r
//@ sub self\.remaining\(\)\.chars\(\)\.next\(\) ==> first_char(self.remaining())
//@ contract
    requires self.wf(), ensures r == if self.left().len() == 0 { None } else { Some(self.left()[0]) },
//@ end
//@ extract crates/rich/src/parser/lexer.rs fn Lexer::advance
//@ ret r
//@ sub c\.len_utf8\(\) ==> utf8_len(c)
//@ contract
    requires old(self).wf(),
    ensures r == (if old(self).left().len() == 0 { None } else { Some(old(self).left()[0]) }), final(self).on(*old(self), if old(self).left().len() == 0 { 0 } else { 1 }),
//@ start
    proof { self.lemma_here(); let k = nth(self.input@, self.pos as int); if k < self.input@.len() { lemma_nth(self.input@, k); lemma_nth(self.input@, k + 1); assert(self.input@.subrange(k + 1, self.input@.len() as int) =~= skip(self.left(), 1)); } }
//@ end
//@ extract crates/rich/src/parser/lexer.rs fn Lexer::consume_text
//@ ret r
//@ sub while let Some\(c\) = self\.peek\(\) \{ ==> loop { let c = match self.peek() { Some(c) => c, None => { break; } };
//@ sub &self\.input\[start\.\.self\.pos\] ==> slice(self.input, start, self.pos)
//@ contract
    requires old(self).wf(),
    ensures final(self).on(*old(self), run(old(self).left())), run(old(self).left()) > 0 ==> r is Some && r->Some_0@ == old(self).left().subrange(0, run(old(self).left())), run(old(self).left()) == 0 ==> r is None,
//@ start
    proof { self.lemma_here(); lemma_run(self.left()); }
    let ghost mut n: int = 0;
//@ loop 1
    invariant_except_break self.on(*old(self), n), old(self).wf(), start == old(self).pos, 0 <= n <= run(old(self).left()), run(self.left()) + n == run(old(self).left()),
    ensures self.on(*old(self), n), start == old(self).pos, n == run(old(self).left()),
    decreases self.left().len(),
//@ loop_start 1
    proof { lemma_run(self.left()); }
    let ghost was = *self;
//@ loop_end 1
    proof { self.lemma_on(*old(self), was, n, 1); n = n + 1; }
//@ after_loop 1
    proof { old(self).lemma_here(); let k = nth(old(self).input@, start as int); lemma_run(old(self).left()); if n > 0 { lemma_off(old(self).input@, k, k + n); } assert(self.input@.subrange(k, k + n) =~= old(self).left().subrange(0, n)); self.lemma_here(); }
//@ end
//@ extract crates/rich/src/parser/lexer.rs fn Lexer::consume_tag
//@ ret r
//@ sub let mut depth = 1; ==> let mut depth: i32 = 1;
//@ sub &self\.input\[content_start\.\.self\.pos\] ==> slice(self.input, content_start, self.pos)
//@ sub RichParseError::\w+\([^)]*\) ==> bad()
//@ sub? (let content = [^;]*;\s*self\.advance\(\);) ==> \1 proof { self.lemma_on(*old(self), before, 1 + n, 1); }
//@ sub content\.starts_with\('/'\) ==> starts_with(content, '/')
//@ sub content\[1\.\.\]\.trim\(\) ==> trimmed_after_first(content)
//@ sub (rest|content)\.is_empty\(\) ==> is_blank(\1)
//@ contract
    requires old(self).wf(), old(self).left().len() > 0, old(self).left()[0] == '[',
    ensures r is Ok <==> first(old(self).left()) is Some, r is Ok ==> tok(r->Ok_0) == first(old(self).left())->Some_0.0 && final(self).on(*old(self), first(old(self).left())->Some_0.1),
//@ start
    let ghost mut n: int = 0;
    proof { self.lemma_here(); }
//@ before_loop 1
    let ghost inside = *self;
    proof { self.lemma_here(); lemma_scan(inside.left(), 1); }
//@ loop 1
    invariant inside.on(*old(self), 1), old(self).wf(), old(self).left().len() > 0, old(self).left()[0] == '[', inside.left() == skip(old(self).left(), 1), content_start == inside.pos, self.on(inside, n), 0 <= depth <= n + 1, n <= inside.left().len(), inside.input@.len() < i32::MAX,
        depth > 0 ==> more(scan(self.left(), depth as int), n) == scan(inside.left(), 1), depth == 0 ==> scan(inside.left(), 1) == Some(n),
    decreases self.left().len(), depth,
//@ loop_start 1
    let ghost was = *self;
    let ghost step: int = if was.left().len() == 0 { 0int } else if was.left()[0] == '\\' { if was.left().len() > 1 { 2 } else { 1 } } else if was.left()[0] == ']' && depth == 1 { 0 } else { 1 };
    proof { inside.lemma_here(); self.lemma_here(); lemma_scan(self.left(), depth as int); assert(skip(skip(self.left(), 1), 1) =~= skip(self.left(), 2)); if self.left().len() <= 1 { assert(skip(self.left(), 2) =~= skip(self.left(), 1)); } }
//@ loop_end 1
    proof { if step == 2 { assert(self.left() == skip(was.left(), 2)); } self.lemma_on(inside, was, n, step); n = n + step; }
//@ after_loop 1
    proof {
        inside.lemma_here(); let k = nth(inside.input@, inside.pos as int); lemma_scan(inside.left(), 1); self.lemma_here();
        assert(self.input@.subrange(k, k + n) =~= inside.left().subrange(0, n));
        self.lemma_on(*old(self), inside, 1, n);
    }
    let ghost before = *self;
//@ end

//@ extract crates/rich/src/parser/lexer.rs fn Lexer::consume_escape
//@ ret r
//@ sub RichParseError::\w+\([^)]*\) ==> bad()
//@ sub? (Ok\(Token::EscapedBracket) ==> proof { self.lemma_on(*old(self), before, 1, 1); } \1
//@ sub? (match self\.peek) ==> let ghost before = *self; \1
//@ contract
    requires old(self).wf(), old(self).left().len() > 0, old(self).left()[0] == '\\',
    ensures r is Ok <==> first(old(self).left()) is Some, r is Ok ==> tok(r->Ok_0) == first(old(self).left())->Some_0.0 && final(self).on(*old(self), first(old(self).left())->Some_0.1),
//@ end
//@ extract crates/rich/src/parser/lexer.rs fn Iterator for Lexer::next
//@ ret r
//@ sub SIG:Option<Self::Item> ==> Option<Result<Token<'a>, RichParseError>>
//@ sub self\.input\.len\(\) ==> byte_len(self.input)
//@ sub self\.consume_text\(\)\.map\(\|t\| Ok\(Token::Text\(t\)\)\) ==> match self.consume_text() { Some(t) => Some(Ok(Token::Text(t))), None => None }
//@ contract
    requires old(self).wf(),
    ensures old(self).left().len() == 0 <==> r is None,
        old(self).left().len() > 0 ==> (r->Some_0 is Ok <==> first(old(self).left()) is Some) && (r->Some_0 is Ok ==> tok(r->Some_0->Ok_0) == first(old(self).left())->Some_0.0 && final(self).on(*old(self), first(old(self).left())->Some_0.1) && first(old(self).left())->Some_0.1 > 0),
//@ start
    proof { self.lemma_here(); let k = nth(self.input@, self.pos as int); lemma_nth(self.input@, k); lemma_off(self.input@, k, self.input@.len() as int); if self.left().len() > 0 { lemma_run(self.left()); lemma_scan(skip(self.left(), 1), 1); } }
//@ end
}

// ---------------------------------------------------------------- what tags do
#[verifier::external_body] pub struct Style { x: u8 }
#[verifier::external_body] pub struct Meta { x: u8 }
impl Style {
    pub uninterp spec fn nothing(self) -> bool;
    pub uninterp spec fn none() -> Style;
    #[verifier::external_body]
    fn default() -> (r: Style) ensures r == Style::none() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == self.nothing() { unimplemented!() }
    #[verifier::external_body]
    fn apply(&self, o: &Style) -> (r: Style) ensures r == layered(*self, *o) { unimplemented!() }
}
/// style b on top of style a (C22)
pub uninterp spec fn layered(a: Style, b: Style) -> Style;
/// entries b added to (replacing those of) a
pub uninterp spec fn merged(a: Meta, b: Meta) -> Meta;
pub broadcast axiom fn axiom_nothing(a: Style, b: Style) requires b.nothing() ensures #[trigger] layered(a, b) == a;
pub broadcast axiom fn axiom_no_entries(a: Meta, b: Meta) requires b.nothing() ensures #[trigger] merged(a, b) == a;
impl Meta {
    pub uninterp spec fn nothing(self) -> bool;
    pub uninterp spec fn none() -> Meta;
    pub uninterp spec fn one(k: Seq<char>, v: Seq<char>) -> Meta;
    #[verifier::external_body]
    fn new() -> (r: Meta) ensures r == Meta::none() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == self.nothing() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: String) requires *old(self) == Meta::none(), ensures *final(self) == Meta::one(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    fn merge(&mut self, o: &Meta) ensures *final(self) == merged(*old(self), *o) { unimplemented!() }
}
pub
//@ extract crates/rich/src/parser/tag.rs enum TagContent
//@ end
/// what a tag means; None where it means nothing (searched, not proved)
pub enum Tag { Style(Style), Meta(Seq<char>, Seq<char>), Close, CloseNamed(Seq<char>) }
pub uninterp spec fn meaning(content: Seq<char>) -> Option<Tag>;
pub open spec fn tag(t: TagContent) -> Tag { match t { TagContent::Style(s) => Tag::Style(s), TagContent::Meta(k, v) => Tag::Meta(k@, v@), TagContent::CloseAll => Tag::Close, TagContent::CloseStyle(n) => Tag::CloseNamed(n@) } }
#[verifier::external_body]
fn parse_tag(content: &str) -> (r: Result<TagContent, RichParseError>)
    ensures r is Ok <==> meaning(content@) is Some, r is Ok ==> tag(r->Ok_0) == meaning(content@)->Some_0 { unimplemented!() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }

pub struct Ent { pub style: Style, pub meta: Meta, pub start: int, pub first: int, pub name: Seq<char> }
pub struct Sp { pub start: int, pub end: int, pub style: Style, pub meta: Meta }
pub struct St { pub out: Seq<char>, pub stack: Seq<Ent>, pub spans: Seq<Sp> }
pub uninterp spec fn goes_by(content: Seq<char>, name: Seq<char>) -> bool;

pub open spec fn opened(s: St, style: Style, meta: Meta, name: Seq<char>) -> St { St { stack: s.stack.push(Ent { style, meta, start: bytes(s.out), first: s.spans.len() as int, name }), ..s } }
/// the span of a tag that is closed: in front of the spans of the tags opened inside it
pub open spec fn spanned(spans: Seq<Sp>, e: Ent, end: int) -> Seq<Sp> { if end > e.start && !(e.style.nothing() && e.meta.nothing()) { spans.insert(e.first, Sp { start: e.start, end, style: e.style, meta: e.meta }) } else { spans } }
pub open spec fn closed(s: St) -> St { if s.stack.len() == 0 { s } else { St { stack: s.stack.drop_last(), spans: spanned(s.spans, s.stack.last(), bytes(s.out)), ..s } } }
pub open spec fn closed_n(s: St, n: int) -> St decreases n { if n <= 0 { s } else { closed(closed_n(s, n - 1)) } }
/// how many of the innermost tags [/name] closes
pub open spec fn closing(stack: Seq<Ent>, name: Seq<char>) -> int decreases stack.len() { if stack.len() == 0 { 0 } else if goes_by(stack.last().name, name) { 1 } else { 1 + closing(stack.drop_last(), name) } }
pub open spec fn step(s: St, t: Tok) -> Option<St> {
    match t {
        Tok::Text(x) => Some(St { out: s.out + x, ..s }),
        Tok::Escaped(c) => Some(St { out: s.out.push(c), ..s }),
        Tok::Close(None) => Some(closed_n(s, 1)),
        Tok::Close(Some(n)) => Some(closed_n(s, closing(s.stack, n))),
        Tok::Open(c) => match meaning(c) {
            Some(Tag::Style(x)) => Some(opened(s, x, Meta::none(), c)),
            Some(Tag::Meta(k, v)) => Some(opened(s, Style::none(), Meta::one(k, v), c)),
            Some(Tag::Close) => Some(closed_n(s, 1)),
            Some(Tag::CloseNamed(n)) => Some(closed_n(s, closing(s.stack, n))),
            None => None,
        },
    }
}
pub open spec fn start_state() -> St { St { out: seq![], stack: seq![], spans: seq![] } }
/// the state after the first n tokens
pub open spec fn after(v: Seq<Tok>, n: int) -> Option<St> decreases n { if n <= 0 { Some(start_state()) } else { match after(v, n - 1) { Some(s) => step(s, v[n - 1]), None => None } } }
/// what parsing yields
pub open spec fn parsed(v: Seq<Tok>) -> Option<St> { match after(v, v.len() as int) { Some(s) => Some(closed_n(s, s.stack.len() as int)), None => None } }

// ---------------------------------------------------------------- the property
/// the style at place o: the styles of the spans over it, in order
pub open spec fn style_over(sp: Seq<Sp>, o: int) -> Style decreases sp.len() { if sp.len() == 0 { Style::none() } else { let s = sp.last(); let p = style_over(sp.drop_last(), o); if s.start <= o < s.end { layered(p, s.style) } else { p } } }
pub open spec fn meta_over(sp: Seq<Sp>, o: int) -> Meta decreases sp.len() { if sp.len() == 0 { Meta::none() } else { let s = sp.last(); let p = meta_over(sp.drop_last(), o); if s.start <= o < s.end { merged(p, s.meta) } else { p } } }
/// the styles of open tags, the innermost on top
pub open spec fn style_inside(st: Seq<Ent>) -> Style decreases st.len() { if st.len() == 0 { Style::none() } else { layered(style_inside(st.drop_last()), st.last().style) } }
pub open spec fn meta_inside(st: Seq<Ent>) -> Meta decreases st.len() { if st.len() == 0 { Meta::none() } else { merged(meta_inside(st.drop_last()), st.last().meta) } }
/// spans and open tags together, in the order the tags were opened; open ones reach to `inf`
pub open spec fn all(st: Seq<Ent>, sp: Seq<Sp>, inf: int) -> Seq<Sp> decreases st.len() {
    if st.len() == 0 { sp } else { let e = st.last(); all(st.drop_last(), sp.subrange(0, e.first), inf).push(Sp { start: e.start, end: inf, style: e.style, meta: e.meta }) + sp.subrange(e.first, sp.len() as int) }
}
/// stack positions are ordered
pub open spec fn nested(st: Seq<Ent>, n: int, b: int) -> bool decreases st.len() { if st.len() == 0 { true } else { 0 <= st.last().first <= n && 0 <= st.last().start <= b && nested(st.drop_last(), st.last().first, st.last().start) } }
pub open spec fn sound(s: St) -> bool {
    &&& nested(s.stack, s.spans.len() as int, bytes(s.out))
    &&& forall|i: int| 0 <= i < s.stack.len() ==> edge(s.out, (#[trigger] s.stack[i]).start)
    &&& forall|i: int| 0 <= i < s.spans.len() ==> (#[trigger] s.spans[i]).start < s.spans[i].end <= bytes(s.out) && edge(s.out, s.spans[i].start) && edge(s.out, s.spans[i].end)
}
proof fn lemma_style_skip(x: Seq<Sp>, y: Seq<Sp>, o: int)
    requires forall|i: int| 0 <= i < y.len() ==> !((#[trigger] y[i]).start <= o < y[i].end),
    ensures style_over(x + y, o) == style_over(x, o), meta_over(x + y, o) == meta_over(x, o), decreases y.len(),
{ if y.len() > 0 { assert((x + y).drop_last() =~= x + y.drop_last()); lemma_style_skip(x, y.drop_last(), o); assert((x + y).last() == y.last()); } else { assert(x + y =~= x); } }
/// exchanging equals below does not change what is on top
proof fn lemma_style_below(x: Seq<Sp>, z: Seq<Sp>, y: Seq<Sp>, o: int)
    requires style_over(x, o) == style_over(z, o), meta_over(x, o) == meta_over(z, o),
    ensures style_over(x + y, o) == style_over(z + y, o), meta_over(x + y, o) == meta_over(z + y, o), decreases y.len(),
{
    if y.len() > 0 { assert((x + y).drop_last() =~= x + y.drop_last()); assert((z + y).drop_last() =~= z + y.drop_last()); lemma_style_below(x, z, y.drop_last(), o); assert((x + y).last() == y.last() && (z + y).last() == y.last()); }
    else { assert(x + y =~= x); assert(z + y =~= z); }
}
proof fn lemma_all_tail(st: Seq<Ent>, a: Seq<Sp>, b: Seq<Sp>, inf: int)
    requires nested(st, a.len() as int, inf_of(st)), ensures all(st, a + b, inf) == all(st, a, inf) + b,
{
    if st.len() > 0 {
        let e = st.last();
        assert((a + b).subrange(0, e.first) =~= a.subrange(0, e.first));
        assert((a + b).subrange(e.first, (a + b).len() as int) =~= a.subrange(e.first, a.len() as int) + b);
        assert(all(st, a + b, inf) =~= all(st, a, inf) + b);
    }
}
/// an upper bound of the starts
pub open spec fn inf_of(st: Seq<Ent>) -> int { if st.len() == 0 { 0 } else { st.last().start } }
proof fn lemma_nested_more(st: Seq<Ent>, n: int, b: int, m: int, c: int)
    requires nested(st, n, b), n <= m, b <= c, ensures nested(st, m, c), nested(st, n, inf_of(st)),
{ }
/// what is written next has the styles of the open tags, the innermost on top
proof fn lemma_written(st: Seq<Ent>, sp: Seq<Sp>, b: int, o: int)
    requires nested(st, sp.len() as int, b), b <= o, forall|i: int| 0 <= i < sp.len() ==> (#[trigger] sp[i]).end <= b || sp[i].end <= o,
    ensures style_over(all(st, sp, o + 1), o) == style_inside(st), meta_over(all(st, sp, o + 1), o) == meta_inside(st), decreases st.len(),
{
    if st.len() == 0 { assert(Seq::<Sp>::empty() + sp =~= sp); lemma_style_skip(seq![], sp, o); }
    else {
        let e = st.last();
        let low = sp.subrange(0, e.first); let high = sp.subrange(e.first, sp.len() as int);
        assert forall|i: int| 0 <= i < low.len() implies (#[trigger] low[i]).end <= o by { assert(low[i] == sp[i]); }
        lemma_nested_more(st.drop_last(), e.first, e.start, e.first, b);
        lemma_written(st.drop_last(), low, b, o);
        assert forall|i: int| 0 <= i < high.len() implies !((#[trigger] high[i]).start <= o < high[i].end) by { assert(high[i] == sp[e.first + i]); }
        let x = all(st.drop_last(), low, o + 1); let m = x.push(Sp { start: e.start, end: o + 1, style: e.style, meta: e.meta });
        lemma_style_skip(m, high, o);
        assert(m.drop_last() =~= x);
    }
}
/// closing a tag changes nothing of what is written
proof fn lemma_closed(s: St, o: int)
    requires sound(s), 0 <= o < bytes(s.out),
    ensures style_over(all(closed(s).stack, closed(s).spans, o + 1), o) == style_over(all(s.stack, s.spans, o + 1), o), meta_over(all(closed(s).stack, closed(s).spans, o + 1), o) == meta_over(all(s.stack, s.spans, o + 1), o),
{
    broadcast use axiom_nothing, axiom_no_entries;
    if s.stack.len() > 0 {
        let e = s.stack.last(); let st = s.stack.drop_last(); let b = bytes(s.out);
        let low = s.spans.subrange(0, e.first); let high = s.spans.subrange(e.first, s.spans.len() as int);
        lemma_nested_more(st, e.first, e.start, e.first, e.start);
        let x = all(st, low, o + 1);
        let open = Sp { start: e.start, end: o + 1, style: e.style, meta: e.meta };
        assert(x.push(open).drop_last() =~= x);
        if b > e.start && !(e.style.nothing() && e.meta.nothing()) {
            let done = Sp { start: e.start, end: b, style: e.style, meta: e.meta };
            assert(s.spans.insert(e.first, done) =~= low + (seq![done] + high));
            lemma_all_tail(st, low, seq![done] + high, o + 1);
            assert(x + (seq![done] + high) =~= x.push(done) + high);
            assert(x.push(done).drop_last() =~= x);
            lemma_style_below(x.push(open), x.push(done), high, o);
        } else {
            assert(s.spans =~= low + high);
            lemma_all_tail(st, low, high, o + 1);
            assert(style_over(x.push(open), o) == style_over(x, o));
            lemma_style_below(x.push(open), x, high, o);
        }
    }
}
proof fn lemma_closed_sound(s: St) requires sound(s), ensures sound(closed(s)), closed(s).out == s.out,
{
    if s.stack.len() > 0 {
        let e = s.stack.last(); let c = closed(s);
        lemma_nested_more(s.stack.drop_last(), e.first, e.start, c.spans.len() as int, bytes(s.out));
        lemma_nth(s.out, s.out.len() as int);
        assert forall|i: int| 0 <= i < c.stack.len() implies edge(c.out, (#[trigger] c.stack[i]).start) by { assert(c.stack[i] == s.stack[i]); }
        assert(edge(s.out, s.stack[s.stack.len() - 1].start));
        assert forall|i: int| 0 <= i < c.spans.len() implies (#[trigger] c.spans[i]).start < c.spans[i].end <= bytes(c.out) && edge(c.out, c.spans[i].start) && edge(c.out, c.spans[i].end) by {
            if c.spans.len() == s.spans.len() { assert(c.spans[i] == s.spans[i]); } else if i < e.first { assert(c.spans[i] == s.spans[i]); } else if i > e.first { assert(c.spans[i] == s.spans[i - 1]); }
        }
    }
}
proof fn lemma_closed_n(s: St, n: int, o: int)
    requires sound(s), ensures sound(closed_n(s, n)), closed_n(s, n).out == s.out,
        0 <= n <= s.stack.len() ==> closed_n(s, n).stack == s.stack.subrange(0, s.stack.len() - n),
        0 <= o < bytes(s.out) ==> style_over(all(closed_n(s, n).stack, closed_n(s, n).spans, o + 1), o) == style_over(all(s.stack, s.spans, o + 1), o) && meta_over(all(closed_n(s, n).stack, closed_n(s, n).spans, o + 1), o) == meta_over(all(s.stack, s.spans, o + 1), o),
    decreases n,
{
    if n > 0 { let p = closed_n(s, n - 1); lemma_closed_n(s, n - 1, o); lemma_closed_sound(p); if 0 <= o < bytes(s.out) { lemma_closed(p, o); } if n <= s.stack.len() { assert(p.stack.drop_last() =~= s.stack.subrange(0, s.stack.len() - n)); } }
    else { assert(s.stack.subrange(0, s.stack.len() as int) =~= s.stack); }
}
proof fn lemma_closing(st: Seq<Ent>, n: Seq<char>) ensures 0 <= closing(st, n) <= st.len(), decreases st.len() { if st.len() > 0 && !goes_by(st.last().name, n) { lemma_closing(st.drop_last(), n); } }
pub open spec fn grows(s: St, t: St) -> bool { sound(t) && exists|x: Seq<char>| t.out == #[trigger] (s.out + x) }
/// a token leaves what is written as it is
proof fn lemma_step(s: St, t: Tok, o: int)
    requires sound(s), step(s, t) is Some, 0 <= o < bytes(s.out),
    ensures style_over(all(step(s, t)->Some_0.stack, step(s, t)->Some_0.spans, o + 1), o) == style_over(all(s.stack, s.spans, o + 1), o), meta_over(all(step(s, t)->Some_0.stack, step(s, t)->Some_0.spans, o + 1), o) == meta_over(all(s.stack, s.spans, o + 1), o),
{
    let q = step(s, t)->Some_0;
    lemma_closed_n(s, 1, o);
    match t {
        Tok::Close(Some(n)) => { lemma_closed_n(s, closing(s.stack, n), o); },
        Tok::Open(c) => {
            if let Some(Tag::CloseNamed(n)) = meaning(c) { lemma_closed_n(s, closing(s.stack, n), o); }
            if meaning(c)->Some_0 is Style || meaning(c)->Some_0 is Meta {
                let e = q.stack.last();
                assert(q.stack.drop_last() =~= s.stack);
                assert(s.spans.subrange(0, e.first) =~= s.spans);
                let x = all(s.stack, s.spans, o + 1); let m = x.push(Sp { start: e.start, end: o + 1, style: e.style, meta: e.meta });
                assert(m + s.spans.subrange(e.first, s.spans.len() as int) =~= m);
                assert(m.drop_last() =~= x);
            }
        },
        _ => {},
    }
}
proof fn lemma_step_sound(s: St, t: Tok)
    requires sound(s), step(s, t) is Some, ensures sound(step(s, t)->Some_0), bytes(s.out) <= bytes(step(s, t)->Some_0.out),
{
    let q = step(s, t)->Some_0;
    lemma_closed_n(s, 1, -1); lemma_nth(s.out, s.out.len() as int);
    match t {
        Tok::Close(Some(n)) => { lemma_closed_n(s, closing(s.stack, n), -1); },
        Tok::Text(x) => { lemma_grown(s, x); },
        Tok::Escaped(c) => { assert(s.out.push(c) =~= s.out + seq![c]); lemma_grown(s, seq![c]); },
        Tok::Open(c) => {
            if let Some(Tag::CloseNamed(n)) = meaning(c) { lemma_closed_n(s, closing(s.stack, n), -1); }
            if meaning(c)->Some_0 is Style || meaning(c)->Some_0 is Meta { assert(q.stack.drop_last() =~= s.stack); assert forall|i: int| 0 <= i < q.stack.len() implies edge(q.out, (#[trigger] q.stack[i]).start) by { if i < s.stack.len() { assert(q.stack[i] == s.stack[i]); } } }
        },
        _ => {},
    }
}
proof fn lemma_grown(s: St, x: Seq<char>) requires sound(s), ensures sound(St { out: s.out + x, ..s }), bytes(s.out) <= bytes(s.out + x),
{
    let q = St { out: s.out + x, ..s };
    lemma_bytes_add(s.out, x, x.len() as int); lemma_off(x, 0, x.len() as int);
    lemma_nested_more(s.stack, s.spans.len() as int, bytes(s.out), s.spans.len() as int, bytes(q.out));
    assert forall|i: int| 0 <= i < q.stack.len() implies edge(q.out, (#[trigger] q.stack[i]).start) by { lemma_edge_add(s.out, x, s.stack[i].start); }
    assert forall|i: int| 0 <= i < q.spans.len() implies (#[trigger] q.spans[i]).start < q.spans[i].end <= bytes(q.out) && edge(q.out, q.spans[i].start) && edge(q.out, q.spans[i].end) by { let z = s.spans[i]; lemma_edge_add(s.out, x, z.start); lemma_edge_add(s.out, x, z.end); }
}
proof fn lemma_after(v: Seq<Tok>, n: int) requires 0 <= n <= v.len(), after(v, n) is Some, ensures sound(after(v, n)->Some_0), decreases n,
{ if n > 0 { lemma_after(v, n - 1); lemma_step_sound(after(v, n - 1)->Some_0, v[n - 1]); } }
proof fn lemma_later(v: Seq<Tok>, i: int, n: int, o: int)
    requires 0 <= i <= n <= v.len(), after(v, n) is Some,
    ensures after(v, i) is Some, bytes(after(v, i)->Some_0.out) <= bytes(after(v, n)->Some_0.out), 0 <= o < bytes(after(v, i)->Some_0.out) ==> {
        let (s, t) = (after(v, i)->Some_0, after(v, n)->Some_0);
        style_over(all(t.stack, t.spans, o + 1), o) == style_over(all(s.stack, s.spans, o + 1), o) && meta_over(all(t.stack, t.spans, o + 1), o) == meta_over(all(s.stack, s.spans, o + 1), o)
    }, decreases n - i,
{ if i < n { lemma_later(v, i, n - 1, o); lemma_after(v, n - 1); let p = after(v, n - 1)->Some_0; lemma_step_sound(p, v[n - 1]); if 0 <= o < bytes(after(v, i)->Some_0.out) { lemma_step(p, v[n - 1], o); } } }
/// THE PROPERTY: what token i writes ends up, for good, with exactly the styles (and actions) of the tags that are open
/// where it stands, the innermost on top; all spans lie on character boundaries of the text
proof fn theorem_styles(v: Seq<Tok>, i: int, o: int)
    requires 0 <= i < v.len(), parsed(v) is Some, bytes(after(v, i)->Some_0.out) <= o < bytes(after(v, i + 1)->Some_0.out),
    ensures style_over(parsed(v)->Some_0.spans, o) == style_inside(after(v, i)->Some_0.stack), meta_over(parsed(v)->Some_0.spans, o) == meta_inside(after(v, i)->Some_0.stack), sound(parsed(v)->Some_0),
{
    let n = v.len() as int; let last = after(v, n)->Some_0;
    lemma_later(v, i, n, o); lemma_later(v, i + 1, n, o); lemma_after(v, i); lemma_after(v, n);
    let s = after(v, i)->Some_0; let t = after(v, i + 1)->Some_0;
    lemma_closed_n(s, 1, o);
    match v[i] { Tok::Close(Some(m)) => { lemma_closed_n(s, closing(s.stack, m), o); }, Tok::Open(c) => { if let Some(Tag::CloseNamed(m)) = meaning(c) { lemma_closed_n(s, closing(s.stack, m), o); } }, _ => {} }
    assert(t.stack == s.stack && t.spans == s.spans);
    lemma_nth(s.out, 0);
    lemma_written(s.stack, s.spans, bytes(s.out), o);
    lemma_closed_n(last, last.stack.len() as int, o);
}
/// and the text is that of the tokens outside tags, in order
pub open spec fn texts(v: Seq<Tok>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { texts(v, n - 1) + match v[n - 1] { Tok::Text(x) => x, Tok::Escaped(c) => seq![c], _ => seq![] } } }
proof fn theorem_text(v: Seq<Tok>, n: int)
    requires 0 <= n <= v.len(), after(v, n) is Some, ensures after(v, n)->Some_0.out == texts(v, n), n == v.len() ==> parsed(v)->Some_0.out == texts(v, n), decreases n,
{
    if n > 0 {
        theorem_text(v, n - 1); let s = after(v, n - 1)->Some_0; lemma_after(v, n - 1); lemma_closed_n(s, 1, -1);
        match v[n - 1] { Tok::Close(Some(m)) => { lemma_closed_n(s, closing(s.stack, m), -1); }, Tok::Open(c) => { if let Some(Tag::CloseNamed(m)) = meaning(c) { lemma_closed_n(s, closing(s.stack, m), -1); } }, _ => {} }
        assert(s.out + Seq::<char>::empty() =~= s.out);
        if let Tok::Escaped(c) = v[n - 1] { assert(s.out.push(c) =~= s.out + seq![c]); }
    }
    if n == v.len() { lemma_after(v, n); let l = after(v, n)->Some_0; lemma_closed_n(l, l.stack.len() as int, -1); }
}

// ---------------------------------------------------------------- the parser
pub
//@ extract crates/rich/src/span.rs struct Span
//@ sub HashMap<String, String> ==> Meta
//@ end
pub
//@ extract crates/rich/src/markup.rs struct ParsedMarkup
//@ sub (text|spans): ==> pub \1:
//@ end
pub
//@ extract crates/rich/src/parser/markup.rs struct StackEntry
//@ sub HashMap<String, String> ==> Meta
//@ sub (style|meta|start_pos|first_span|tag_content): ==> pub \1:
//@ end
pub
//@ extract crates/rich/src/parser/markup.rs struct Parser
//@ sub (style_stack|output|spans): ==> pub \1:
//@ end
pub open spec fn ent(e: StackEntry) -> Ent { Ent { style: e.style, meta: e.meta, start: e.start_pos as int, first: e.first_span as int, name: e.tag_content@ } }
pub open spec fn ents(v: Seq<StackEntry>) -> Seq<Ent> { Seq::new(v.len(), |i: int| ent(v[i])) }
pub open spec fn sp(s: Span) -> Sp { Sp { start: s.start as int, end: s.end as int, style: s.style, meta: s.meta } }
pub open spec fn sps(v: Seq<Span>) -> Seq<Sp> { Seq::new(v.len(), |i: int| sp(v[i])) }
#[verifier::external_body]
fn taken(v: &Vec<StackEntry>, k: usize) -> (r: StackEntry) requires k < v@.len(), ensures r == v@[k as int] { unimplemented!() }
#[verifier::external_body]
fn token_at<'a>(v: &Vec<Token<'a>>, k: usize) -> (r: Token<'a>) requires k < v@.len(), ensures r == v@[k as int] { unimplemented!() }
pub open spec fn toks(v: Seq<Token<'_>>) -> Seq<Tok> { Seq::new(v.len(), |i: int| tok(v[i])) }
/// Iterator::collect of the lexer into a Result<Vec>
fn collect<'a>(source: Lexer<'a>) -> (r: Result<Vec<Token<'a>>, RichParseError>)
    requires source.wf(), ensures r is Ok <==> lex(source.left()) is Some, r is Ok ==> toks(r->Ok_0@) == lex(source.left())->Some_0,
{
    let ghost whole = source; let mut lexer = source;
    let mut out: Vec<Token<'a>> = Vec::new();
    proof { lexer.lemma_here(); assert(toks(out@) =~= seq![]); }
    loop
        invariant lexer.wf(), whole == source, lex(whole.left()) is Some <==> lex(lexer.left()) is Some, lex(whole.left()) is Some ==> lex(whole.left())->Some_0 =~= toks(out@) + lex(lexer.left())->Some_0,
        decreases lexer.left().len(),
    {
        let ghost was = lexer; let ghost had = out@;
        match lexer.next() {
            None => { return Ok(out); }
            Some(Err(e)) => { return Err(e); }
            Some(Ok(t)) => { out.push(t); proof { assert(toks(out@) =~= toks(had).push(tok(t))); assert(skip(was.left(), first(was.left())->Some_0.1) == lexer.left()); } }
        }
    }
}
impl Span {
//@ extract crates/rich/src/span.rs fn Span::with_meta
//@ ret r
//@ sub SIG:HashMap<String, String> ==> Meta
//@ contract
    ensures sp(r) == (Sp { start: start as int, end: end as int, style, meta }),
//@ end
//@ extract crates/rich/src/span.rs fn Span::contains
//@ ret r
//@ contract
    ensures r == (self.start <= offset < self.end)
//@ end
}
impl Parser {
    pub open spec fn st(self) -> St { St { out: self.output@, stack: ents(self.style_stack@), spans: sps(self.spans@) } }
    pub open spec fn ok(self) -> bool { sound(self.st()) && bytes(self.output@) <= usize::MAX }
    #[verifier::external_body]
    fn entry_matches(&self, entry: &StackEntry, name: &str) -> (r: bool) ensures r == goes_by(entry.tag_content@, name@) { unimplemented!() }

//@ extract crates/rich/src/parser/markup.rs fn Parser::new
//@ ret r
//@ contract
    ensures r.st().out =~= start_state().out, r.st().stack =~= start_state().stack, r.st().spans =~= start_state().spans, r.ok(),
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::create_span_from_entry
//@ sub self\.output\.len\(\) ==> byte_len(&self.output)
//@ contract
    requires 0 <= entry.first_span <= old(self).spans@.len(), bytes(old(self).output@) <= usize::MAX,
    ensures final(self).output@ == old(self).output@, final(self).style_stack@ == old(self).style_stack@, sps(final(self).spans@) =~= spanned(sps(old(self).spans@), ent(entry), bytes(old(self).output@)),
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::push_style
//@ sub? (self\.style_stack\.push\(entry\);) ==> \1 proof { assert(ents(self.style_stack@) =~= opened(old(self).st(), style, meta, tag_content@).stack); }
//@ sub SIG:HashMap<String, String> ==> Meta
//@ sub self\.output\.len\(\) ==> byte_len(&self.output)
//@ contract
    requires bytes(old(self).output@) <= usize::MAX,
    ensures final(self).st() == opened(old(self).st(), style, meta, tag_content@),
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::pop_style
//@ contract
    requires old(self).ok(),
    ensures final(self).st() == closed_n(old(self).st(), 1), final(self).ok(), old(self).style_stack@.len() > 0 ==> final(self).style_stack@.len() == old(self).style_stack@.len() - 1,
//@ start
    proof { reveal_with_fuel(closed_n, 2); lemma_closed_sound(self.st()); if self.style_stack@.len() > 0 { assert(self.st().stack.last() == ent(self.style_stack@.last())); assert(ents(self.style_stack@.drop_last()) =~= self.st().stack.drop_last()); } }
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::pop_style_matching
//@ sub let mut to_close = Vec::new\(\); ==> let mut to_close: Vec<StackEntry> = Vec::new();
//@ sub while let Some\(entry\) = self\.style_stack\.pop\(\) \{ ==> loop { let entry = match self.style_stack.pop() { Some(e) => e, None => { break; } };
//@ sub for entry in to_close \{ ==> for k in 0..to_close.len() { let entry = taken(&to_close, k);
//@ contract
    requires old(self).ok(),
    ensures final(self).st() == closed_n(old(self).st(), closing(old(self).st().stack, name@)), final(self).ok(),
//@ start
    let ghost n = self.style_stack@.len() as int;
    proof { lemma_closing(self.st().stack, name@); lemma_closed_n(self.st(), closing(self.st().stack, name@), -1); }
//@ loop 1
    invariant_except_break self.output@ == old(self).output@, self.spans@ == old(self).spans@, n == old(self).style_stack@.len(), to_close@.len() <= n, self.style_stack@ =~= old(self).style_stack@.subrange(0, n - to_close@.len()), forall|j: int| 0 <= j < to_close@.len() ==> #[trigger] to_close@[j] == old(self).style_stack@[n - 1 - j],
        closing(old(self).st().stack, name@) == to_close@.len() + closing(ents(self.style_stack@), name@),
    ensures self.output@ == old(self).output@, self.spans@ == old(self).spans@, to_close@.len() <= n, self.style_stack@ =~= old(self).style_stack@.subrange(0, n - to_close@.len()), forall|j: int| 0 <= j < to_close@.len() ==> #[trigger] to_close@[j] == old(self).style_stack@[n - 1 - j], closing(old(self).st().stack, name@) == to_close@.len(),
    decreases self.style_stack@.len(),
//@ loop_start 1
    proof { if self.style_stack@.len() > 0 { assert(ents(self.style_stack@).last() == ent(self.style_stack@.last())); assert(ents(self.style_stack@.drop_last()) =~= ents(self.style_stack@).drop_last()); } }
//@ loop 2
    invariant old(self).ok(), n == old(self).style_stack@.len(), to_close@.len() <= n, self.output@ == old(self).output@, self.style_stack@ =~= old(self).style_stack@.subrange(0, n - to_close@.len()), forall|j: int| 0 <= j < to_close@.len() ==> #[trigger] to_close@[j] == old(self).style_stack@[n - 1 - j],
        sps(self.spans@) == closed_n(old(self).st(), k as int).spans,
//@ loop_start 2
    proof {
        let p = closed_n(old(self).st(), k as int);
        lemma_closed_n(old(self).st(), k as int, -1);
        assert(p.stack.last() == old(self).st().stack[n - 1 - k]);
        assert(to_close@[k as int] == old(self).style_stack@[n - 1 - k]);
        assert(p.stack.last() == ent(to_close@[k as int]));
        assert(closed_n(old(self).st(), k + 1) == closed(p));
    }
//@ after_loop 2
    proof { assert(ents(self.style_stack@) =~= old(self).st().stack.subrange(0, n - to_close@.len())); }
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::process_close_tag
//@ contract
    requires old(self).ok(),
    ensures final(self).ok(), step(old(self).st(), Tok::Close(match spec { Some(n) => Some(n@), None => None })) == Some(final(self).st()),
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::process_open_tag
//@ ret r
//@ sub TagContent::parse\(content\)\s*\.map_err\(\|e\| RichParseError::InvalidModifier\(e\.to_string\(\)\)\)\? ==> parse_tag(content)?
//@ sub HashMap::new\(\) ==> Meta::new()
//@ sub content\.to_string\(\) ==> owned(content)
//@ contract
    requires old(self).ok(),
    ensures r is Ok <==> step(old(self).st(), Tok::Open(content@)) is Some, r is Ok ==> final(self).ok() && step(old(self).st(), Tok::Open(content@)) == Some(final(self).st()),
//@ start
    proof { if step(self.st(), Tok::Open(content@)) is Some { lemma_step_sound(self.st(), Tok::Open(content@)); } }
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::process_token
//@ ret r
//@ sub self\.output\.push_str\(text\) ==> add_str(&mut self.output, text)
//@ sub self\.output\.push\(c\) ==> add_char(&mut self.output, c)
//@ contract
    requires old(self).ok(),
    ensures r is Ok <==> step(old(self).st(), tok(token)) is Some, r is Ok ==> final(self).ok() && step(old(self).st(), tok(token)) == Some(final(self).st()),
//@ start
    proof { if step(self.st(), tok(token)) is Some { lemma_step_sound(self.st(), tok(token)); } }
//@ end
//@ extract crates/rich/src/parser/markup.rs fn Parser::close_all_remaining
//@ contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).st() == closed_n(old(self).st(), old(self).st().stack.len() as int),
//@ start
    let ghost n = self.style_stack@.len() as int;
//@ loop 1
    invariant self.ok(), n == old(self).style_stack@.len(), self.style_stack@.len() <= n, self.st() == closed_n(old(self).st(), n - self.style_stack@.len()),
    decreases self.style_stack@.len(),
//@ loop_start 1
    proof { reveal_with_fuel(closed_n, 2); }
//@ end
}
impl ParsedMarkup {
    pub open spec fn ok(self) -> bool { bytes(self.text@) <= usize::MAX && forall|i: int| 0 <= i < self.spans@.len() ==> edge(self.text@, (#[trigger] self.spans@[i]).start as int) && edge(self.text@, self.spans@[i].end as int) && self.spans@[i].start < self.spans@[i].end }
//@ extract crates/rich/src/markup.rs fn ParsedMarkup::new
//@ ret r
//@ contract
    ensures r.text@ == text@, r.spans@ == spans@,
//@ end
//@ extract crates/rich/src/markup.rs fn ParsedMarkup::style_at
//@ ret r
//@ sub for span in &self\.spans \{ ==> for k in 0..self.spans.len() { let span = &self.spans[k];
//@ contract
    ensures r == style_over(sps(self.spans@), offset as int),
//@ loop 1
    invariant result == style_over(sps(self.spans@).subrange(0, k as int), offset as int),
//@ loop_start 1
    proof { assert(sps(self.spans@).subrange(0, k + 1).drop_last() =~= sps(self.spans@).subrange(0, k as int)); }
//@ after_loop 1
    proof { assert(sps(self.spans@).subrange(0, self.spans@.len() as int) =~= sps(self.spans@)); }
//@ end
}
//@ extract crates/rich/src/parser/markup.rs fn parse
//@ ret r
//@ sub let tokens: Result<Vec<_>, _> = Lexer::new\(input\)\.collect\(\); ==> let tokens: Result<Vec<Token>, RichParseError> = collect(Lexer::new(input));
//@ sub? (parser\.close_all_remaining\(\);) ==> \1 proof { assert forall|i: int| 0 <= i < parser.spans@.len() implies edge(parser.output@, (#[trigger] parser.spans@[i]).start as int) && edge(parser.output@, parser.spans@[i].end as int) && parser.spans@[i].start < parser.spans@[i].end by { let z = parser.st().spans[i]; } }
//@ sub for token in tokens \{ ==> for k in 0..tokens.len() { let token = token_at(&tokens, k);
//@ contract
    requires input@.len() < i32::MAX, bytes(input@) <= usize::MAX,
    ensures r is Ok <==> (lex(input@) is Some && parsed(lex(input@)->Some_0) is Some),
        r is Ok ==> r->Ok_0.text@ == parsed(lex(input@)->Some_0)->Some_0.out && sps(r->Ok_0.spans@) == parsed(lex(input@)->Some_0)->Some_0.spans && r->Ok_0.ok(),
//@ before_loop 1
    let ghost v = toks(tokens@);
//@ loop 1
    invariant v == toks(tokens@), parser.ok(), after(v, k as int) == Some(parser.st()), lex(input@) == Some(v),
//@ loop_start 1
    proof { assert(after(v, k + 1) == step(parser.st(), v[k as int])); lemma_stuck(v, k + 1, v.len() as int); }
//@ end
/// an error is final
proof fn lemma_stuck(v: Seq<Tok>, i: int, n: int) requires 0 <= i <= n <= v.len(), ensures after(v, i) is None ==> after(v, n) is None, decreases n - i { if i < n { lemma_stuck(v, i, n - 1); } }

pub
//@ extract crates/rich/src/markup.rs struct SegmentIterator
//@ sub (markup|pos): ==> pub \1:
//@ end
impl<'a> SegmentIterator<'a> {
    pub open spec fn ok(self) -> bool { self.markup.ok() && edge(self.markup.text@, self.pos as int) }
//@ extract crates/rich/src/markup.rs fn SegmentIterator::new
//@ ret r
//@ contract
    requires markup.ok(), ensures r.ok(), r.pos == 0, r.markup == markup,
//@ start
    proof { lemma_nth(markup.text@, 0); }
//@ end
/// one piece: it starts where the last one ended, is not empty, and all of it has the returned style and entries
//@ extract crates/rich/src/markup.rs fn Iterator for SegmentIterator::next
//@ ret r
//@ sub SIG:Option<Self::Item> ==> Option<(&'a str, Style, Meta)>
//@ sub self\.markup\.text\.len\(\) ==> byte_len(&self.markup.text)
//@ sub for span in &self\.markup\.spans \{ ==> for k in 0..self.markup.spans.len() { let span = &self.markup.spans[k];
//@ sub std::collections::HashMap::new\(\) ==> Meta::new()
//@ sub for \(k, v\) in &span\.meta \{[^}]*\} ==> meta.merge(&span.meta);
//@ sub &self\.markup\.text\[self\.pos\.\.end\] ==> slice(&self.markup.text, self.pos, end)
//@ contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).markup == old(self).markup,
        r is None <==> old(self).pos == bytes(old(self).markup.text@),
        r is None ==> final(self).pos == old(self).pos,
        r is Some ==> old(self).pos < final(self).pos <= bytes(old(self).markup.text@)
            && r->Some_0.0@ == old(self).markup.text@.subrange(nth(old(self).markup.text@, old(self).pos as int), nth(old(self).markup.text@, final(self).pos as int))
            && (forall|o: int| old(self).pos <= o < final(self).pos ==> #[trigger] style_over(sps(old(self).markup.spans@), o) == r->Some_0.1)
            && (forall|o: int| old(self).pos <= o < final(self).pos ==> #[trigger] meta_over(sps(old(self).markup.spans@), o) == r->Some_0.2),
//@ start
    let ghost z = sps(self.markup.spans@);
    proof { let t = self.markup.text@; lemma_nth(t, nth(t, self.pos as int)); lemma_nth(t, t.len() as int); }
//@ loop 1
    invariant self.ok(), self == old(self), z == sps(self.markup.spans@), self.pos < end <= bytes(self.markup.text@), edge(self.markup.text@, end as int), forall|i: int| 0 <= i < k ==> same_side(#[trigger] z[i], self.pos as int, end as int),
//@ loop_start 1
    proof { let s = self.markup.spans@[k as int]; assert(z[k as int] == sp(s)); }
//@ loop 2
    invariant self.ok(), self == old(self), z == sps(self.markup.spans@), style == style_over(z.subrange(0, k as int), self.pos as int), meta == meta_over(z.subrange(0, k as int), self.pos as int),
//@ loop_start 2
    proof { assert(z.subrange(0, k + 1).drop_last() =~= z.subrange(0, k as int)); }
//@ after_loop 2
    proof {
        assert(z.subrange(0, z.len() as int) =~= z);
        assert forall|o: int| self.pos <= o < end implies #[trigger] style_over(z, o) == style by { lemma_uniform(z, self.pos as int, end as int, o); }
        assert forall|o: int| self.pos <= o < end implies #[trigger] meta_over(z, o) == meta by { lemma_uniform(z, self.pos as int, end as int, o); }
        let t = self.markup.text@; lemma_nth(t, nth(t, end as int));
    }
//@ end
}
/// s begins and ends outside the inner of a..b
pub open spec fn same_side(s: Sp, a: int, b: int) -> bool { (s.start <= a || s.start >= b) && (s.end <= a || s.end >= b) }
proof fn lemma_uniform(z: Seq<Sp>, a: int, b: int, o: int)
    requires a <= o < b, forall|i: int| 0 <= i < z.len() ==> same_side(#[trigger] z[i], a, b), ensures style_over(z, o) == style_over(z, a), meta_over(z, o) == meta_over(z, a), decreases z.len(),
{ if z.len() > 0 { assert(same_side(z[z.len() - 1], a, b)); assert forall|i: int| 0 <= i < z.drop_last().len() implies same_side(#[trigger] z.drop_last()[i], a, b) by { assert(z[i] == z.drop_last()[i]); } lemma_uniform(z.drop_last(), a, b, o); } }

// ---------------------------------------------------------------- escaping
pub open spec fn special(c: char) -> bool { c == '[' || c == ']' || c == '\\' }
pub open spec fn escaped(c: char) -> Seq<char> { if special(c) { seq!['\\', c] } else { seq![c] } }
pub open spec fn escape(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 { seq![] } else { escape(t.drop_last()) + escaped(t.last()) } }
pub open spec fn quiet(v: Seq<Tok>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Text || v[i] is Escaped }
proof fn lemma_escape_front(t: Seq<char>)
    requires t.len() > 0, ensures escape(t) == escaped(t[0]) + escape(skip(t, 1)), decreases t.len(),
{
    if t.len() == 1 { assert(t.drop_last() =~= seq![]); assert(skip(t, 1) =~= seq![]); assert(escape(t) =~= escaped(t[0]) + escape(skip(t, 1))); }
    else { lemma_escape_front(t.drop_last()); assert(skip(t.drop_last(), 1) =~= skip(t, 1).drop_last()); assert(escape(t) =~= escaped(t[0]) + escape(skip(t, 1))); }
}
/// the characters in front of the first one that is escaped
pub open spec fn ordinary(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 || special(t[0]) { 0 } else { 1 + ordinary(skip(t, 1)) } }
proof fn lemma_ordinary(t: Seq<char>)
    ensures 0 <= ordinary(t) <= t.len(), escape(t) == t.subrange(0, ordinary(t)) + escape(skip(t, ordinary(t))), ordinary(t) < t.len() ==> special(t[ordinary(t)]), forall|i: int| 0 <= i < ordinary(t) ==> !special(#[trigger] t[i]), decreases t.len(),
{
    let n = ordinary(t);
    if t.len() > 0 && !special(t[0]) {
        lemma_ordinary(skip(t, 1)); lemma_escape_front(t);
        assert(skip(skip(t, 1), n - 1) =~= skip(t, n));
        assert forall|i: int| 0 <= i < n implies !special(#[trigger] t[i]) by { if i > 0 { assert(skip(t, 1)[i - 1] == t[i]); } }
        assert(escape(t) =~= t.subrange(0, n) + escape(skip(t, n)));
    } else { assert(skip(t, 0) =~= t); assert(escape(t) =~= t.subrange(0, 0) + escape(t)); }
}
proof fn lemma_texts_front(a: Tok, v: Seq<Tok>, n: int)
    requires 0 <= n <= v.len(), ensures texts(seq![a] + v, n + 1) == (match a { Tok::Text(x) => x, Tok::Escaped(c) => seq![c], _ => seq![] }) + texts(v, n), decreases n,
{
    let w = seq![a] + v; let x = match a { Tok::Text(x) => x, Tok::Escaped(c) => seq![c], _ => seq![] };
    if n > 0 { lemma_texts_front(a, v, n - 1); assert(w[n] == v[n - 1]); assert(texts(w, n + 1) =~= x + texts(v, n)); }
    else { reveal_with_fuel(texts, 3); assert(w[0] == a); assert(texts(w, 1) =~= x + texts(v, 0)); }
}
/// escaping any text gives markup that is lexed to just that text
proof fn lemma_escape(t: Seq<char>)
    ensures lex(escape(t)) is Some, quiet(lex(escape(t))->Some_0), texts(lex(escape(t))->Some_0, lex(escape(t))->Some_0.len() as int) == t, decreases t.len(),
{
    if t.len() > 0 {
        lemma_ordinary(t); lemma_escape_front(t);
        let n = ordinary(t); let s = escape(t);
        if n == 0 {
            lemma_escape(skip(t, 1));
            assert(skip(s, 2) =~= escape(skip(t, 1)));
            assert(first(s) == Some((Tok::Escaped(t[0]), 2int)));
            let v = lex(skip(s, 2))->Some_0; let w = seq![Tok::Escaped(t[0])] + v;
            assert(lex(s) == Some(w));
            lemma_texts_front(Tok::Escaped(t[0]), v, v.len() as int);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text || w[i] is Escaped by { if i > 0 { assert(w[i] == v[i - 1]); } }
            assert(seq![t[0]] + skip(t, 1) =~= t);
        } else {
            let r = skip(t, n);
            lemma_escape(r);
            if r.len() > 0 { lemma_escape_front(r); assert(r[0] == t[n]); assert(s[n] == escape(r)[0]); }
            assert forall|i: int| 0 <= i < n implies !marks(#[trigger] s[i]) by { assert(s[i] == t[i]); }
            lemma_run_is(s, n);
            assert(!marks(s[0]));
            assert(skip(s, n) =~= escape(r));
            assert(s.subrange(0, n) =~= t.subrange(0, n));
            let a = Tok::Text(t.subrange(0, n));
            assert(first(s) == Some((a, n)));
            let v = lex(skip(s, n))->Some_0; let w = seq![a] + v;
            assert(lex(s) == Some(w));
            lemma_texts_front(a, v, v.len() as int);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text || w[i] is Escaped by { if i > 0 { assert(w[i] == v[i - 1]); } }
            assert(t.subrange(0, n) + r =~= t);
        }
    }
}
proof fn lemma_quiet(v: Seq<Tok>, n: int)
    requires quiet(v), 0 <= n <= v.len(), ensures after(v, n) == Some(St { out: texts(v, n), stack: seq![], spans: seq![] }), decreases n,
{ if n > 0 { lemma_quiet(v, n - 1); assert(v[n - 1] is Text || v[n - 1] is Escaped); if let Tok::Escaped(c) = v[n - 1] { assert(texts(v, n - 1).push(c) =~= texts(v, n - 1) + seq![c]); } } }
/// THE PROPERTY: escaping a text and parsing it gives the text back, without styling
proof fn theorem_escape(t: Seq<char>)
    ensures lex(escape(t)) is Some, parsed(lex(escape(t))->Some_0) == Some(St { out: t, stack: seq![], spans: seq![] }),
{ lemma_escape(t); let v = lex(escape(t))->Some_0; lemma_quiet(v, v.len() as int); }

#[verifier::external_body]
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
mod in_input { use super::*;
//@ extract crates/textual/src/widget/input.rs fn escape_markup
//@ ret r
//@ sub String::with_capacity\([^;]*\); ==> String::new(); let cs = chars_of(input);
//@ sub for ch in input\.chars\(\) \{ ==> for k in 0..cs.len() { let ch = cs[k];
//@ sub out\.push\(([^)]*)\) ==> add_char(&mut out, \1)
//@ contract
    ensures r@ == escape(input@),
//@ loop 1
    invariant cs@ == input@, out@ =~= escape(input@.subrange(0, k as int)),
//@ loop_start 1
    proof { assert(input@.subrange(0, k + 1).drop_last() =~= input@.subrange(0, k as int)); }
//@ after_loop 1
    proof { assert(input@.subrange(0, input@.len() as int) =~= input@); }
//@ end
}
mod in_command { use super::*;
//@ extract crates/textual/src/command.rs fn escape_markup
//@ ret r
//@ sub String::with_capacity\([^;]*\); ==> String::new(); let cs = chars_of(input);
//@ sub for ch in input\.chars\(\) \{ ==> for k in 0..cs.len() { let ch = cs[k];
//@ sub out\.push\(([^)]*)\) ==> add_char(&mut out, \1)
//@ contract
    ensures r@ == escape(input@),
//@ loop 1
    invariant cs@ == input@, out@ =~= escape(input@.subrange(0, k as int)),
//@ loop_start 1
    proof { assert(input@.subrange(0, k + 1).drop_last() =~= input@.subrange(0, k as int)); }
//@ after_loop 1
    proof { assert(input@.subrange(0, input@.len() as int) =~= input@); }
//@ end
}
mod in_option_list { use super::*;
//@ extract crates/textual/src/widget/option_list.rs fn escape_markup
//@ ret r
//@ sub String::with_capacity\([^;]*\); ==> String::new(); let cs = chars_of(input);
//@ sub for ch in input\.chars\(\) \{ ==> for k in 0..cs.len() { let ch = cs[k];
//@ sub out\.push\(([^)]*)\) ==> add_char(&mut out, \1)
//@ contract
    ensures r@ == escape(input@),
//@ loop 1
    invariant cs@ == input@, out@ =~= escape(input@.subrange(0, k as int)),
//@ loop_start 1
    proof { assert(input@.subrange(0, k + 1).drop_last() =~= input@.subrange(0, k as int)); }
//@ after_loop 1
    proof { assert(input@.subrange(0, input@.len() as int) =~= input@); }
//@ end
}
mod in_fuzzy { use super::*;
//@ extract crates/textual/src/fuzzy.rs fn push_escaped_char
//@ sub out\.push\(([^)]*)\) ==> add_char(out, \1)
//@ contract
    ensures final(out)@ =~= old(out)@ + escaped(ch),
//@ end
//@ extract crates/textual/src/fuzzy.rs fn escape_markup
//@ ret r
//@ sub String::with_capacity\([^;]*\); ==> String::new(); let cs = chars_of(input);
//@ sub for ch in input\.chars\(\) \{ ==> for k in 0..cs.len() { let ch = cs[k];
//@ contract
    ensures r@ == escape(input@),
//@ loop 1
    invariant cs@ == input@, out@ =~= escape(input@.subrange(0, k as int)),
//@ loop_start 1
    proof { assert(input@.subrange(0, k + 1).drop_last() =~= input@.subrange(0, k as int)); }
//@ after_loop 1
    proof { assert(input@.subrange(0, input@.len() as int) =~= input@); }
//@ end
}
}
