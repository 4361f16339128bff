use vstd::prelude::*;

verus! {
//@ include TEXT.rs
// ---------------------------------------------------------------- the code's types
/// colours are only looked at when they are read; how one is written is left open
#[verifier::external_body] pub struct Color { x: u8 }
#[verifier::external_body] pub struct StyleParseError { x: u8 }
#[verifier::external_body] fn bad() -> StyleParseError { unimplemented!() }
#[derive(Clone, Copy)]
pub
//@ extract crates/rich/src/style.rs struct TextStyle
//@ end
pub
//@ extract crates/rich/src/style.rs struct Style
//@ end
pub
//@ extract crates/rich/src/parser/tag.rs enum TagContent
//@ end
pub struct StackEntry { pub tag_content: String }
pub struct Parser { pub dummy: u8 }

// ---------------------------------------------------------------- what a tag means
pub open spec fn skip(s: Seq<char>, n: int) -> Seq<char> { if n < s.len() { s.subrange(n, s.len() as int) } else { seq![] } }
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn colour(s: Seq<char>) -> Option<Color>;
/// the modifiers and their short names
pub open spec fn modifier(w: Seq<char>) -> Option<TextStyle> {
    let n = none();
    if w == "bold"@ || w == "b"@ { Some(TextStyle { bold: true, ..n }) }
    else if w == "dim"@ || w == "d"@ { Some(TextStyle { dim: true, ..n }) }
    else if w == "italic"@ || w == "i"@ { Some(TextStyle { italic: true, ..n }) }
    else if w == "underline"@ || w == "u"@ { Some(TextStyle { underline: true, ..n }) }
    else if w == "strike"@ || w == "s"@ || w == "strikethrough"@ { Some(TextStyle { strike: true, ..n }) }
    else if w == "reverse"@ || w == "r"@ { Some(TextStyle { reverse: true, ..n }) }
    else if w == "blink"@ { Some(TextStyle { blink: true, ..n }) }
    else { None }
}
pub open spec fn none() -> TextStyle { TextStyle { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false, blink: false } }
pub open spec fn plus(a: TextStyle, b: TextStyle) -> TextStyle {
    TextStyle { bold: a.bold || b.bold, dim: a.dim || b.dim, italic: a.italic || b.italic, underline: a.underline || b.underline, strike: a.strike || b.strike, reverse: a.reverse || b.reverse, blink: a.blink || b.blink }
}
/// the words of a style, one after another: `on COLOUR`, a modifier, or a colour; a later colour replaces an earlier one
pub open spec fn read(w: Seq<Seq<char>>, st: Style) -> Option<Style> decreases w.len() {
    if w.len() == 0 { Some(st) }
    else if lower(w[0]) == "on"@ { if w.len() < 2 { None } else { match colour(w[1]) { Some(c) => read(w.skip(2), Style { bg: Some(c), ..st }), None => None } } }
    else if modifier(lower(w[0])) is Some { read(w.skip(1), Style { text: plus(st.text, modifier(lower(w[0]))->Some_0), ..st }) }
    else if colour(lower(w[0])) is Some { read(w.skip(1), Style { fg: colour(lower(w[0])), ..st }) }
    else if colour(w[0]) is Some { read(w.skip(1), Style { fg: colour(w[0]), ..st }) }
    else { None }
}
pub open spec fn blank_style() -> Style { Style { fg: None, bg: None, text: none() } }
pub open spec fn style_of(t: Seq<char>) -> Option<Style> { if trim(t).len() == 0 { None } else { read(words(trim(t)), blank_style()) } }
pub open spec fn strip_front(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { strip_front(s.drop_first(), c) } else { s } }
pub open spec fn strip_back(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { strip_back(s.drop_last(), c) } else { s } }
pub open spec fn unquoted(s: Seq<char>) -> Seq<char> { strip_back(strip_back(strip_front(strip_front(s, '\''), '"'), '\''), '"') }
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
/// where the first c stands, or the end
pub open spec fn where_is(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + where_is(s.drop_first(), c) } }
pub enum Tag { Style(Style), Meta(Seq<char>, Seq<char>), Close, CloseNamed(Seq<char>) }
pub open spec fn action_of(t: Seq<char>) -> Tag {
    let n = where_is(t, '=');
    if n < t.len() { Tag::Meta(seq!['@'] + trim(t.take(n)), trim(skip(t, n + 1))) } else { Tag::Meta(seq!['@'] + trim(t), seq![]) }
}
pub open spec fn meaning(content: Seq<char>) -> Option<Tag> {
    let c = trim(content);
    if c.len() == 0 { None }
    else if c[0] == '/' { let n = trim(skip(c, 1)); Some(if n.len() == 0 { Tag::Close } else { Tag::CloseNamed(n) }) }
    else if c[0] == '@' { Some(action_of(skip(c, 1))) }
    else if begins(c, "link="@) || begins(c, "link "@) { Some(Tag::Meta("@link"@, unquoted(trim(skip(c, 5))))) }
    else { match style_of(c) { Some(s) => Some(Tag::Style(s)), None => None } }
}
pub open spec fn tag(t: TagContent) -> Tag { match t { TagContent::Style(s) => Tag::Style(s), TagContent::Meta(k, v) => Tag::Meta(k@, v@), TagContent::CloseAll => Tag::Close, TagContent::CloseStyle(n) => Tag::CloseNamed(n@) } }

/// n stands at i of s
pub open spec fn stands(s: Seq<char>, n: Seq<char>, i: int) -> bool { 0 <= i && i + n.len() <= s.len() && s.subrange(i, i + n.len()) == n }
/// ... as a whole word
pub open spec fn word_at(s: Seq<char>, n: Seq<char>, i: int) -> bool { stands(s, n, i) && (i == 0 || s[i - 1] == ' ') && (i + n.len() == s.len() || s[i + n.len()] == ' ') }
/// a tag goes by any of its words (what stands before the `=` of one with a value), in any case
pub open spec fn goes_by(content: Seq<char>, name: Seq<char>) -> bool {
    let c = lower(content); let n = lower(name);
    c == n || exists|i: int| #[trigger] word_at(c.take(where_is(c, '=')), n, i)
}
pub open spec fn padded(s: Seq<char>) -> Seq<char> { seq![' '] + s + seq![' '] }
proof fn lemma_word(s: Seq<char>, n: Seq<char>)
    ensures (exists|i: int| #[trigger] stands(padded(s), padded(n), i)) == (exists|i: int| #[trigger] word_at(s, n, i)),
{
    let p = padded(s); let q = padded(n);
    assert forall|i: int| #[trigger] stands(p, q, i) implies word_at(s, n, i) by {
        let u = p.subrange(i, i + q.len());
        assert(u[0] == q[0] && u[q.len() - 1] == q[q.len() - 1]);
        assert(p[i] == ' ' && p[i + n.len() + 1] == ' ');
        assert(s.subrange(i, i + n.len()) =~= n) by { assert forall|k: int| 0 <= k < n.len() implies s[i + k] == n[k] by { assert(u[k + 1] == q[k + 1]); assert(p[i + k + 1] == s[i + k]); } }
        if i > 0 { assert(p[i] == s[i - 1]); }
        if i + n.len() < s.len() { assert(p[i + n.len() + 1] == s[i + n.len()]); }
    }
    assert forall|i: int| #[trigger] word_at(s, n, i) implies stands(p, q, i) by {
        let t = s.subrange(i, i + n.len());
        assert(p.subrange(i, i + q.len()) =~= q) by {
            assert forall|k: int| 0 <= k < q.len() implies p[i + k] == q[k] by {
                if k == 0 { if i > 0 { assert(p[i] == s[i - 1]); } }
                else if k == q.len() - 1 { if i + n.len() < s.len() { assert(p[i + k] == s[i + n.len()]); } }
                else { assert(p[i + k] == s[i + k - 1]); assert(t[k - 1] == n[k - 1]); }
            }
        }
    }
    if exists|i: int| #[trigger] stands(p, q, i) { let i = choose|i: int| #[trigger] stands(p, q, i); assert(word_at(s, n, i)); }
    if exists|i: int| #[trigger] word_at(s, n, i) { let i = choose|i: int| #[trigger] word_at(s, n, i); assert(stands(p, q, i)); }
}
proof fn lemma_where(s: Seq<char>, c: char, n: int)
    requires 0 <= n <= s.len(), n < s.len() ==> s[n] == c, forall|i: int| 0 <= i < n ==> #[trigger] s[i] != c, ensures where_is(s, c) == n, decreases s.len(),
{ if n > 0 { assert(s[0] != c); assert forall|i: int| 0 <= i < n - 1 implies #[trigger] s.drop_first()[i] != c by { assert(s[i + 1] == s.drop_first()[i]); } lemma_where(s.drop_first(), c, n - 1); } }
proof fn lemma_first(s: Seq<char>) requires s.len() > 0, ensures nth(s, len8(s[0])) == 1, edge(s, len8(s[0])), rest(s, len8(s[0])) =~= skip(s, 1), edge(s, 0), nth(s, 0) == 0
{ assert(off(s, 1) == off(s, 0) + len8(s[0])); lemma_nth(s, 1); lemma_nth(s, 0); }

// ---------------------------------------------------------------- std, by contract
#[verifier::external_body] fn trimmed(s: &str) -> (r: &str) ensures r@ == trim(s@) { s.trim() }
#[verifier::external_body] fn is_blank(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] fn starts_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body] fn starts_str(s: &str, p: &str) -> (r: bool) ensures r == begins(s@, p@) { s.starts_with(p) }
pub open spec fn narrow(s: Seq<char>, n: int) -> bool { n <= s.len() && forall|i: int| 0 <= i < n ==> len8(#[trigger] s[i]) == 1 }
#[verifier::external_body] fn from(s: &str, n: usize) -> (r: &str) requires narrow(s@, n as int), ensures r@ == skip(s@, n as int) { &s[n..] }
#[verifier::external_body] fn find_char(s: &str, c: char) -> (r: Option<usize>)
    ensures match r { Some(p) => edge(s@, p as int) && p <= bytes(s@) < usize::MAX && nth(s@, p as int) == where_is(s@, c) && where_is(s@, c) < s@.len(), None => where_is(s@, c) >= s@.len() } { s.find(c) }
#[verifier::external_body] fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] fn nothing() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] fn at_sign(s: &str) -> (r: String) ensures r@ == seq!['@'] + s@ { format!("@{}", s) }
#[verifier::external_body] fn without_front(s: &str, c: char) -> (r: &str) ensures r@ == strip_front(s@, c) { s.trim_start_matches(c) }
#[verifier::external_body] fn without_back(s: &str, c: char) -> (r: &str) ensures r@ == strip_back(s@, c) { s.trim_end_matches(c) }
#[verifier::external_body] fn lowered(s: &str) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
#[verifier::external_body] fn is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn is_string(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn up_to(s: &str, c: char) -> (r: &str) ensures r@ == s@.take(where_is(s@, c)) { s.split(c).next().unwrap_or_default() }
#[verifier::external_body] fn pad(s: &str) -> (r: String) ensures r@ == padded(s@) { format!(" {} ", s) }
#[verifier::external_body] fn has(s: &String, n: &String) -> (r: bool) ensures r == exists|i: int| #[trigger] stands(s@, n@, i) { s.contains(n.as_str()) }
#[verifier::external_body] fn parse_colour(s: &str) -> (r: Result<Color, StyleParseError>) ensures r is Ok == colour(s@) is Some, r is Ok ==> r->Ok_0 == colour(s@)->Some_0 { unimplemented!() }
/// split_whitespace
pub struct Words<'a> { pub list: Vec<&'a str>, pub at: usize }
#[verifier::external_body] fn word_list<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == words(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words(s@)[i] { s.split_whitespace().collect() }
fn split_words<'a>(s: &'a str) -> (r: Words<'a>) ensures r.left() =~= words(s@), r.at == 0 { Words { list: word_list(s), at: 0 } }
impl<'a> Words<'a> {
    pub open spec fn left(&self) -> Seq<Seq<char>> { Seq::new((self.list@.len() - self.at) as nat, |i: int| self.list@[self.at + i]@) }
    fn next(&mut self) -> (r: Option<&'a str>)
        requires old(self).at <= old(self).list@.len(),
        ensures old(self).left().len() == 0 ==> r is None && *final(self) == *old(self), old(self).left().len() > 0 ==> r is Some && r->Some_0@ == old(self).left()[0] && final(self).left() == old(self).left().skip(1), final(self).at <= final(self).list@.len(),
    {
        if self.at < self.list.len() { let w = self.list[self.at]; self.at = self.at + 1; assert(self.left() =~= old(self).left().skip(1)); Some(w) } else { None }
    }
}
#[verifier::external_body] fn no_text_style() -> (r: TextStyle) ensures r == none() { TextStyle { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false, blink: false } }

// ---------------------------------------------------------------- styles
impl TextStyle {
//@ extract crates/rich/src/style.rs fn TextStyle::apply
//@ ret r
//@ contract
    ensures r == plus(*self, *other),
//@ end
}
impl Style {
//@ extract crates/rich/src/style.rs fn Style::new
//@ ret r
//@ sub Self::default\(\) ==> Style { fg: None, bg: None, text: no_text_style() }
//@ contract
    ensures r == blank_style(),
//@ end
//@ extract crates/rich/src/style.rs fn Style::parse_modifier
//@ ret r
//@ sub TextStyle::default\(\) ==> no_text_style()
//@ sub match word \{ ==> {
//@ sub "([^"]*)" \| "([^"]*)" \| "([^"]*)" => ([^,]*), ==> if is(word, "\1") || is(word, "\2") || is(word, "\3") { \4; } else
//@ sub "([^"]*)" \| "([^"]*)" => ([^,]*), ==> if is(word, "\1") || is(word, "\2") { \3; } else
//@ sub "([^"]*)" => ([^,]*), ==> if is(word, "\1") { \2; } else
//@ sub _ => ([^,]*), ==> { \1; }
//@ contract
    ensures r == modifier(word@),
//@ start
    proof {
        reveal_strlit("not bold"); reveal_strlit("not b"); reveal_strlit("bold"); reveal_strlit("b"); reveal_strlit("dim"); reveal_strlit("d"); reveal_strlit("italic"); reveal_strlit("i");
        reveal_strlit("underline"); reveal_strlit("u"); reveal_strlit("strike"); reveal_strlit("s"); reveal_strlit("strikethrough"); reveal_strlit("reverse"); reveal_strlit("r"); reveal_strlit("blink");
        assert("not bold"@[3] == ' '); assert("not b"@[3] == ' ');
    }
//@ end
//@ extract crates/rich/src/style.rs fn Style::parse
//@ ret r
//@ sub SIG:input: &str ==> given: &str
//@ sub input\.trim\(\) ==> trimmed(given)
//@ sub input\.is_empty\(\) ==> is_blank(input)
//@ sub StyleParseError::Empty ==> bad()
//@ sub StyleParseError::UnknownModifier\([^()]*\(\)\) ==> bad()
//@ sub input\.split_whitespace\(\)\.peekable\(\) ==> split_words(input)
//@ sub while let Some\(word\) = words\.next\(\) \{ ==> loop { let word = match words.next() { Some(w) => w, None => { break; } };
//@ sub word\.to_lowercase\(\) ==> lowered(word)
//@ sub word_lower == "on" ==> is(word_lower.as_str(), "on")
//@ sub Color::parse\(&word_lower\) ==> parse_colour(word_lower.as_str())
//@ sub? let color = Color::parse\(color_word\)\?; ==> let color = match parse_colour(color_word) { Ok(c) => c, Err(e) => { return Err(e); } };
//@ sub Color::parse\( ==> parse_colour(
//@ sub Self::parse_modifier\(&word_lower\) ==> Self::parse_modifier(word_lower.as_str())
//@ nloops 1
//@ contract
    ensures r is Ok == style_of(given@) is Some, r is Ok ==> r->Ok_0 == style_of(given@)->Some_0,
//@ loop 1
    invariant_except_break read(words.left(), style) == style_of(given@),
    invariant words.at <= words.list@.len(),
    ensures style_of(given@) == Some(style),
    decreases words.left().len(),
//@ loop_start 1
    proof { let w = words.left(); if w.len() > 1 { assert(w.skip(1)[0] == w[1]); assert(w.skip(1).skip(1) =~= w.skip(2)); } }
//@ end
}

// ---------------------------------------------------------------- tags
impl TagContent {
//@ extract crates/rich/src/parser/tag.rs fn TagContent::parse_link
//@ ret r
//@ sub content\.starts_with\("([^"]*)"\) ==> starts_str(content, "\1")
//@ sub &content\[(\d)\.\.\] ==> from(content, \1)
//@ sub StyleParseError::UnknownModifier\([^()]*\(\)\) ==> bad()
//@ sub value_part\s*\.trim\(\) ==> trimmed(value_part)
//@ sub trimmed\(value_part\)\s*\.trim_start_matches\('(\\?.)'\) ==> without_front(trimmed(value_part), '\1')
//@ sub (without_front\(trimmed\(value_part\), '\\?.'\))\s*\.trim_start_matches\('(\\?.)'\) ==> without_front(\1, '\2')
//@ sub (without_front\(without_front\(trimmed\(value_part\), '\\?.'\), '\\?.'\))\s*\.trim_end_matches\('(\\?.)'\) ==> without_back(\1, '\2')
//@ sub (without_back\(without_front\(without_front\(trimmed\(value_part\), '\\?.'\), '\\?.'\), '\\?.'\))\s*\.trim_end_matches\('(\\?.)'\)\s*\.to_string\(\) ==> owned(without_back(\1, '\2'))
//@ sub "@link"\.to_string\(\) ==> owned("@link")
//@ contract
    requires begins(content@, "link="@) || begins(content@, "link "@),
    ensures r is Ok, tag(r->Ok_0) == Tag::Meta("@link"@, unquoted(trim(skip(content@, 5)))),
//@ start
    proof { reveal_strlit("link="); reveal_strlit("link "); assert(content@.len() >= 5);
        if begins(content@, "link="@) { assert forall|i: int| 0 <= i < 5 implies len8(#[trigger] content@[i]) == 1 by { assert(content@.take(5)[i] == content@[i]); assert(content@[i] == "link="@[i]); } assert(narrow(content@, 5)); }
        else { assert forall|i: int| 0 <= i < 5 implies len8(#[trigger] content@[i]) == 1 by { assert(content@.take(5)[i] == content@[i]); assert(content@[i] == "link "@[i]); } assert(narrow(content@, 5)); } }
//@ end
//@ extract crates/rich/src/parser/tag.rs fn TagContent::parse_meta
//@ ret r
//@ sub content\.find\('='\) ==> find_char(content, '=')
//@ sub content\[\.\.eq_pos\]\.trim\(\) ==> trimmed(slice(content, 0, eq_pos))
//@ sub content\[eq_pos \+ 1\.\.\]\.trim\(\)\.to_string\(\) ==> owned(trimmed(tail(content, eq_pos + 1)))
//@ sub content\.trim\(\) ==> trimmed(content)
//@ sub format!\("@\{\}", ==> at_sign(
//@ sub String::new\(\) ==> nothing()
//@ contract
    ensures r is Ok, tag(r->Ok_0) == action_of(content@),
//@ start
    proof { let n = where_is(content@, '='); lemma_where_bound(content@, '=');
        lemma_nth(content@, 0); if n < content@.len() { lemma_nth(content@, n); lemma_nth(content@, n + 1); assert(off(content@, n + 1) == off(content@, n) + len8(content@[n])); assert(content@.subrange(0, n) =~= content@.take(n)); assert(rest(content@, off(content@, n + 1)) =~= skip(content@, n + 1));
            assert forall|p: int| edge(content@, p) && nth(content@, p) == n implies p == off(content@, n) by { lemma_edge_nth(content@, p); } } }
//@ end
//@ extract crates/rich/src/parser/tag.rs fn TagContent::parse
//@ ret r
//@ sub content\[1\.\.\]\.trim\(\) ==> trimmed(from(content, 1))
//@ sub &content\[1\.\.\] ==> from(content, 1)
//@ sub content\.trim\(\) ==> trimmed(content)
//@ sub (content|rest)\.is_empty\(\) ==> is_blank(\1)
//@ sub content\.starts_with\('(.)'\) ==> starts_char(content, '\1')
//@ sub content\.starts_with\("([^"]*)"\) ==> starts_str(content, "\1")
//@ sub StyleParseError::Empty ==> bad()
//@ sub rest\.to_string\(\) ==> owned(rest)
//@ contract
    ensures r is Ok == meaning(content@) is Some, r is Ok ==> tag(r->Ok_0) == meaning(content@)->Some_0,
//@ end
}
proof fn lemma_where_bound(s: Seq<char>, c: char) ensures 0 <= where_is(s, c) <= s.len(), where_is(s, c) < s.len() ==> s[where_is(s, c)] == c, decreases s.len() { if s.len() > 0 && s[0] != c { lemma_where_bound(s.drop_first(), c); } }
proof fn lemma_edge_nth(s: Seq<char>, b: int) requires edge(s, b), ensures off(s, nth(s, b)) == b {}
impl Parser {
//@ extract crates/rich/src/parser/markup.rs fn Parser::entry_matches
//@ ret r
//@ sub entry\.tag_content\.to_lowercase\(\) ==> lowered(entry.tag_content.as_str())
//@ sub name\.to_lowercase\(\) ==> lowered(name)
//@ sub content_lower\.split\('='\)\.next\(\)\.unwrap_or_default\(\) ==> up_to(content_lower.as_str(), '=')
//@ sub content_lower == name_lower ==> is_string(&content_lower, &name_lower)
//@ sub format!\(" \{\} ", words\)\.contains\(&format!\(" \{\} ", name_lower\)\) ==> has(&pad(words), &pad(name_lower.as_str()))
//@ contract
    ensures r == goes_by(entry.tag_content@, name@),
//@ start
    proof { let c = lower(entry.tag_content@); lemma_word(c.take(where_is(c, '=')), lower(name@)); }
//@ end
}
}
