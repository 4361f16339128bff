use vstd::prelude::*;

verus! {
// ---------------------------------------------------------------- texts, graphemes and bytes
/// whether the last character of s begins a new grapheme after the others: grapheme boundaries depend only on what
/// stands before them and the one character behind them (UAX 29); otherwise arbitrary
pub uninterp spec fn splits(s: Seq<char>) -> bool;
/// where the graphemes of s start
pub open spec fn starts(s: Seq<char>) -> Seq<int> decreases s.len() {
    if s.len() == 0 { seq![] } else { let p = starts(s.drop_last()); if s.len() == 1 || splits(s) { p.push(s.len() - 1) } else { p } }
}
/// the number of user-perceived characters
pub open spec fn count(s: Seq<char>) -> int { starts(s).len() as int }
/// the place in the text of cursor position i
pub open spec fn pos(s: Seq<char>, i: int) -> int { if 0 <= i < count(s) { starts(s)[i] } else { s.len() as int } }
pub open spec fn len8(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn off(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(s, k - 1) + len8(s[k - 1]) } }
pub open spec fn before(s: Seq<char>, i: int, b: int) -> bool { off(s, starts(s)[i]) < b }

proof fn lemma_starts(s: Seq<char>)
    ensures forall|i: int| 0 <= i < count(s) ==> 0 <= #[trigger] starts(s)[i] < s.len(), forall|i: int, j: int| 0 <= i < j < count(s) ==> #[trigger] starts(s)[i] < #[trigger] starts(s)[j],
        s.len() > 0 ==> count(s) > 0 && starts(s)[0] == 0, s.len() == 0 ==> count(s) == 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_starts(s.drop_last()); } }
/// what precedes a place keeps its boundaries whatever follows
proof fn lemma_prefix(s: Seq<char>, p: int)
    requires 0 <= p <= s.len(),
    ensures count(s.subrange(0, p)) <= count(s), forall|i: int| 0 <= i < count(s.subrange(0, p)) ==> #[trigger] starts(s)[i] == starts(s.subrange(0, p))[i],
        forall|i: int| count(s.subrange(0, p)) <= i < count(s) ==> #[trigger] starts(s)[i] >= p,
    decreases s.len(),
{
    lemma_starts(s);
    if p == s.len() { assert(s.subrange(0, p) == s); } else { lemma_prefix(s.drop_last(), p); assert(s.drop_last().subrange(0, p) == s.subrange(0, p)); }
}
/// up to cursor position i there are i graphemes
proof fn lemma_cut(s: Seq<char>, i: int)
    requires 0 <= i <= count(s),
    ensures 0 <= pos(s, i) <= s.len(), count(s.subrange(0, pos(s, i))) == i,
{
    lemma_starts(s);
    let p = pos(s, i);
    lemma_prefix(s, p);
    let q = s.subrange(0, p);
    lemma_starts(q);
    if i < count(s) {
        if count(q) < i { assert(starts(s)[i - 1] < starts(s)[i]); assert(starts(s)[count(q)] >= p); }
        if count(q) > i { assert(starts(q)[i] < p); assert(starts(s)[i] == starts(q)[i]); }
    } else { assert(q == s); }
}
/// removing what stands between two places leaves at least the graphemes in front
proof fn lemma_removed(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= count(s), pos(s, i) <= e <= s.len(),
    ensures count(s.subrange(0, pos(s, i)) + s.subrange(e, s.len() as int)) >= i,
{
    lemma_cut(s, i);
    let p = pos(s, i);
    let t = s.subrange(0, p) + s.subrange(e, s.len() as int);
    lemma_prefix(t, p);
    assert(t.subrange(0, p) == s.subrange(0, p));
}
proof fn lemma_off(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), ensures 0 <= off(s, a) <= off(s, b), a < b ==> off(s, a) < off(s, b), decreases b - a, b,
{ if a < b { lemma_off(s, a, b - 1); } else if a > 0 { lemma_off(s, a - 1, a - 1); } }
proof fn lemma_off_same(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|j: int| 0 <= j < k ==> s[j] == t[j], ensures off(s, k) == off(t, k), decreases k,
{ if k > 0 { lemma_off_same(s, t, k - 1); } }

// ---------------------------------------------------------------- std and the segmentation crate (assumed)
#[verifier::external_body]
fn utf8_len(c: char) -> (r: usize) ensures r == len8(c) { c.len_utf8() }
#[verifier::external_body]
fn insert(s: &mut String, at: usize, ch: char)
    requires exists|k: int| #![trigger off(old(s)@, k)] 0 <= k <= old(s)@.len() && off(old(s)@, k) == at,
    ensures forall|k: int| #![trigger off(old(s)@, k)] 0 <= k <= old(s)@.len() && off(old(s)@, k) == at ==> final(s)@ == old(s)@.insert(k, ch), off(final(s)@, final(s)@.len() as int) <= usize::MAX,
{ s.insert(at, ch) }
#[verifier::external_body]
fn remove_range(s: &mut String, a: usize, b: usize)
    requires exists|i: int, j: int| #![trigger off(old(s)@, i), off(old(s)@, j)] 0 <= i <= j <= old(s)@.len() && off(old(s)@, i) == a && off(old(s)@, j) == b,
    ensures forall|i: int, j: int| #![trigger off(old(s)@, i), off(old(s)@, j)] 0 <= i <= j <= old(s)@.len() && off(old(s)@, i) == a && off(old(s)@, j) == b ==> final(s)@ == old(s)@.subrange(0, i) + old(s)@.subrange(j, old(s)@.len() as int),
{ s.replace_range(a..b, "") }
#[verifier::external_body]
fn byte_len(s: &str) -> (r: usize) ensures r == off(s@, s@.len() as int) { s.len() }
/// the iterator over graphemes and where they start
pub struct Graphemes { pub text: Ghost<Seq<char>>, pub k: Ghost<int> }
#[verifier::external_body] pub struct Piece { x: u8 }
#[verifier::external_body]
fn segment(s: &str) -> (r: Graphemes) ensures r.text@ == s@, r.k@ == 0 { unimplemented!() }
impl Graphemes {
    #[verifier::external_body]
    fn count(self) -> (r: usize) requires 0 <= self.k@ <= count(self.text@), ensures r == count(self.text@) - self.k@ { unimplemented!() }
    #[verifier::external_body]
    fn nth(&mut self, n: usize) -> (r: Option<(usize, Piece)>)
        requires 0 <= old(self).k@ <= count(old(self).text@),
        ensures final(self).text == old(self).text, 0 <= final(self).k@ <= count(old(self).text@),
            old(self).k@ + n < count(old(self).text@) ==> r is Some && r->Some_0.0 == off(old(self).text@, starts(old(self).text@)[old(self).k@ + n]) && final(self).k@ == old(self).k@ + n + 1,
            old(self).k@ + n >= count(old(self).text@) ==> r is None && final(self).k@ == count(old(self).text@),
    { unimplemented!() }
    fn next(&mut self) -> (r: Option<(usize, Piece)>)
        requires 0 <= old(self).k@ <= count(old(self).text@),
        ensures final(self).text == old(self).text, 0 <= final(self).k@ <= count(old(self).text@),
            old(self).k@ < count(old(self).text@) ==> r is Some && r->Some_0.0 == off(old(self).text@, starts(old(self).text@)[old(self).k@]) && final(self).k@ == old(self).k@ + 1,
            old(self).k@ == count(old(self).text@) ==> r is None,
    { self.nth(0) }
    /// take_while(|(start, _)| *start < b).count()
    #[verifier::external_body]
    fn count_before(self, b: usize) -> (r: usize)
        requires self.k@ == 0,
        ensures 0 <= r <= count(self.text@), forall|i: int| 0 <= i < r ==> #[trigger] before(self.text@, i, b as int), r < count(self.text@) ==> !before(self.text@, r as int, b as int),
    { unimplemented!() }
}

// ---------------------------------------------------------------- the helpers of grapheme.rs
//@ extract crates/textual/src/grapheme.rs fn grapheme_count
//@ ret r
//@ sub UnicodeSegmentation::graphemes\(text, true\) ==> segment(text)
//@ contract
    ensures r == count(text@)
//@ end
//@ extract crates/textual/src/grapheme.rs fn grapheme_indices
//@ ret r
//@ sub SIG:impl Iterator<Item = \(usize, &str\)> ==> Graphemes
//@ sub UnicodeSegmentation::grapheme_indices\(text, true\) ==> segment(text)
//@ contract
    ensures r.text@ == text@, r.k@ == 0,
//@ end
//@ extract crates/textual/src/grapheme.rs fn grapheme_byte_index
//@ ret r
//@ sub UnicodeSegmentation::grapheme_indices\(text, true\) ==> segment(text)
//@ sub (segment[^|]*)\.map\(\|\(idx, _\)\| idx\)\s*\.unwrap_or\(text\.len\(\)\) ==> match \1 { Some((idx, _)) => idx, None => byte_len(text) }
//@ contract
    ensures r == off(text@, pos(text@, grapheme_index as int)), 0 <= pos(text@, grapheme_index as int) <= text@.len(),
//@ start
    proof { lemma_starts(text@); }
//@ end
//@ extract crates/textual/src/grapheme.rs fn grapheme_byte_range
//@ ret r
//@ sub UnicodeSegmentation::grapheme_indices\(text, true\) ==> segment(text)
//@ sub (iter\.next\(\))\.map\(\|\(idx, _\)\| idx\)\s*\.unwrap_or\(text\.len\(\)\) ==> match \1 { Some((idx, _)) => idx, None => byte_len(text) }
//@ contract
    ensures grapheme_index >= count(text@) ==> r is None,
        grapheme_index < count(text@) ==> r is Some && r->Some_0.0 == off(text@, pos(text@, grapheme_index as int)) && r->Some_0.1 == off(text@, pos(text@, grapheme_index + 1)),
        grapheme_index < count(text@) ==> 0 <= pos(text@, grapheme_index as int) < pos(text@, grapheme_index + 1) <= text@.len(),
//@ start
    proof { lemma_starts(text@); }
//@ end

// ---------------------------------------------------------------- the widget
#[verifier::external_body] pub struct Inner { x: u8 }
#[verifier::external_body] pub struct Msg { x: u8 }
impl Inner {
    #[verifier::external_body]
    fn update(&mut self, s: String) { unimplemented!() }
    pub uninterp spec fn off(self) -> bool;
    pub uninterp spec fn shown(self) -> bool;
    #[verifier::external_body]
    fn is_disabled(&self) -> (r: bool) ensures r == self.off() { unimplemented!() }
    #[verifier::external_body]
    fn is_visible(&self) -> (r: bool) ensures r == self.shown() { unimplemented!() }
}
pub enum KeyCode { Up, Down, Left, Right, Enter, Esc, Tab, BackTab, Home, End, PageUp, PageDown, Backspace, Delete, Insert, Null, Char(char), F(u8) }
pub
//@ extract crates/textual/src/widget/input.rs struct Input
//@ sub Input<M> ==> Input
//@ sub inner: Static<M> ==> pub inner: Inner
//@ sub _phantom: PhantomData<M>, ==>
//@ sub (value|placeholder|cursor|focused|dirty): ==> pub \1:
//@ end
impl Input {
    /// the property: the cursor is on a boundary of the value
    pub open spec fn wf(self) -> bool { 0 <= self.cursor <= count(self.value@) }
    /// the place of the cursor in the value
    pub open spec fn at(self) -> int { pos(self.value@, self.cursor as int) }
    /// the cursor is right behind the user-perceived character that holds place k
    pub open spec fn behind(self, k: int) -> bool { 0 < self.cursor <= count(self.value@) && pos(self.value@, self.cursor - 1) <= k < pos(self.value@, self.cursor as int) }
    pub open spec fn typed(self, o: Input, ch: char) -> bool { self.value@ == o.value@.insert(o.at(), ch) && self.behind(o.at()) }
    pub open spec fn erased(self, o: Input) -> bool {
        if o.cursor == 0 { self.value@ == o.value@ && self.cursor == 0 }
        else { self.cursor == o.cursor - 1 && self.value@ == o.value@.subrange(0, pos(o.value@, o.cursor - 1)) + o.value@.subrange(o.at(), o.value@.len() as int) }
    }
    pub open spec fn deleted(self, o: Input) -> bool { self.cursor == o.cursor && self.value@ == o.value@.subrange(0, o.at()) + o.value@.subrange(pos(o.value@, o.cursor + 1), o.value@.len() as int) }
    pub open spec fn moved(self, o: Input, to: int) -> bool { self.value@ == o.value@ && self.cursor == to }
    #[verifier::external_body]
    fn build_display(&self) -> String { unimplemented!() }

//@ extract crates/textual/src/widget/input.rs fn Input::refresh_display
//@ contract
    ensures final(self).value@ == old(self).value@, final(self).cursor == old(self).cursor,
//@ end
//@ extract crates/textual/src/widget/input.rs fn Input::set_value
//@ sub SIG:impl Into<String> ==> String
//@ sub value\.into\(\) ==> value
//@ contract
    ensures final(self).wf(), final(self).value@ == value@, final(self).cursor == if old(self).cursor <= count(value@) { old(self).cursor as int } else { count(value@) },
//@ end
//@ extract crates/textual/src/widget/input.rs fn Input::set_cursor
//@ contract
    ensures final(self).wf(), final(self).value@ == old(self).value@, final(self).cursor == if cursor <= count(old(self).value@) { cursor as int } else { count(old(self).value@) },
//@ end
//@ extract crates/textual/src/widget/input.rs fn Input::insert_char
//@ sub self\.value\.insert\(byte_index, ch\) ==> insert(&mut self.value, byte_index, ch)
//@ sub \.take_while\(\|\(start, _\)\| \*start < typed_end\)\s*\.count\(\) ==> .count_before(typed_end)
//@ sub ch\.len_utf8\(\) ==> utf8_len(ch)
//@ sub? (let typed_end) ==> proof { lemma_typed(old(self).value@, self.value@, old(self).at(), ch); } \1
//@ sub? (self\.refresh_display\(\);)\s*\}$ ==> proof { lemma_behind(self.value@, self.cursor as int, old(self).at(), typed_end as int); } \1 }
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).typed(*old(self), ch),
//@ start
    proof { lemma_starts(self.value@); }
//@ end
//@ extract crates/textual/src/widget/input.rs fn Input::backspace
//@ sub self\.value\.replace_range\((\w+)\.\.(\w+), ""\) ==> remove_range(&mut self.value, \1, \2)
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).erased(*old(self)),
//@ start
    proof { let s = self.value@; lemma_starts(s); if self.cursor > 0 { lemma_cut(s, self.cursor as int); lemma_cut(s, self.cursor - 1); lemma_removed(s, self.cursor - 1, self.at()); } }
//@ end
//@ extract crates/textual/src/widget/input.rs fn Input::delete
//@ sub self\.value\.replace_range\((\w+)\.\.(\w+), ""\) ==> remove_range(&mut self.value, \1, \2)
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).deleted(*old(self)),
//@ start
    proof { let s = self.value@; lemma_starts(s); lemma_cut(s, self.cursor as int); if self.cursor < count(s) { lemma_cut(s, self.cursor + 1); lemma_removed(s, self.cursor as int, pos(s, self.cursor + 1)); } else { assert(s.subrange(0, s.len() as int) + s.subrange(s.len() as int, s.len() as int) == s); } }
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::is_disabled
//@ ret r
//@ contract
    ensures r == self.inner.off()
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::is_visible
//@ ret r
//@ contract
    ensures r == self.inner.shown()
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::set_focus
//@ contract
    ensures final(self).value@ == old(self).value@, final(self).cursor == old(self).cursor,
//@ end
//@ extract crates/textual/src/widget/input.rs fn Widget for Input::on_event
//@ ret r
//@ sub SIG:Option<M> ==> Option<Msg>
//@ contract
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).inner.off() || !old(self).inner.shown() ==> final(self).moved(*old(self), old(self).cursor as int),
        !(old(self).inner.off() || !old(self).inner.shown()) ==> match key {
            KeyCode::Char(ch) => final(self).typed(*old(self), ch),
            KeyCode::Backspace => final(self).erased(*old(self)),
            KeyCode::Delete => final(self).deleted(*old(self)),
            KeyCode::Left => final(self).moved(*old(self), if old(self).cursor > 0 { old(self).cursor - 1 } else { 0 }),
            KeyCode::Right => final(self).moved(*old(self), if old(self).cursor < count(old(self).value@) { old(self).cursor + 1 } else { old(self).cursor as int }),
            KeyCode::Home => final(self).moved(*old(self), 0),
            KeyCode::End => final(self).moved(*old(self), count(old(self).value@)),
            _ => final(self).moved(*old(self), old(self).cursor as int),
        },
//@ end
}
proof fn lemma_typed(s: Seq<char>, t: Seq<char>, k: int, ch: char)
    requires 0 <= k <= s.len(), t == s.insert(k, ch), off(t, t.len() as int) <= usize::MAX,
    ensures off(s, k) == off(t, k), off(t, k + 1) == off(t, k) + len8(ch), off(t, k + 1) <= usize::MAX,
{ lemma_off_same(s, t, k); lemma_off(t, k + 1, t.len() as int); }
proof fn lemma_behind(t: Seq<char>, c: int, k: int, b: int)
    requires 0 <= k < t.len(), b == off(t, k + 1), 0 <= c <= count(t), forall|i: int| 0 <= i < c ==> #[trigger] before(t, i, b), c < count(t) ==> !before(t, c, b),
    ensures 0 < c, pos(t, c - 1) <= k < pos(t, c),
{
    lemma_starts(t);
    if c == 0 { assert(starts(t)[0] == 0); lemma_off(t, 0, k + 1); assert(before(t, 0, b)); }
    let p = starts(t)[c - 1];
    assert(before(t, c - 1, b));
    if p > k { lemma_off(t, k + 1, p); }
    if c < count(t) { let q = starts(t)[c]; if q <= k { lemma_off(t, q, k + 1); } }
}
}
