use vstd::prelude::*;

verus! {
//@ include TEXT.rs
// ---------------------------------------------------------------- words, widths, strips
/// the cells a text takes
pub uninterp spec fn width_of(s: Seq<char>) -> int;
pub uninterp spec fn blank(c: char) -> bool;
pub open spec fn solid(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !blank(#[trigger] s[i]) }
pub open spec fn all_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> blank(#[trigger] s[i]) }
/// joining texts does not make them wider; nothing is narrower than nothing
pub axiom fn axiom_width(a: Seq<char>, b: Seq<char>) ensures 0 <= width_of(a), width_of(a + b) <= width_of(a) + width_of(b), width_of(seq![' ']) == 1, width_of(seq![]) == 0, a.len() > 0 ==> width_of(a) > 0;
/// where words start (split_whitespace)
pub uninterp spec fn starts(line: Seq<char>) -> Seq<int>;
pub uninterp spec fn words_of(line: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn stop_of(line: Seq<char>, k: int) -> int { starts(line)[k] + words_of(line)[k].len() }
pub open spec fn gap(line: Seq<char>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> blank(#[trigger] line[i]) }
pub open spec fn apart(line: Seq<char>, k: int) -> bool { stop_of(line, k - 1) < starts(line)[k] && gap(line, stop_of(line, k - 1), starts(line)[k]) }
#[verifier::opaque]
pub open spec fn split_ok(line: Seq<char>) -> bool {
    let w = words_of(line); let n = w.len() as int;
    &&& starts(line).len() == n
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] w[k]).len() > 0 && solid(w[k]) && 0 <= starts(line)[k] && stop_of(line, k) <= line.len() && w[k] == line.subrange(starts(line)[k], stop_of(line, k))
    &&& forall|k: int| 0 < k < n ==> #[trigger] apart(line, k)
    &&& n > 0 ==> gap(line, 0, starts(line)[0]) && gap(line, stop_of(line, n - 1), line.len() as int)
    &&& n == 0 ==> gap(line, 0, line.len() as int)
}
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
fn split_words<'a>(line: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == words_of(line@), split_ok(line@) { line.split_whitespace().collect() }
#[verifier::external_body]
fn display_width(t: &str) -> (r: usize) ensures r == width_of(t@), r <= usize::MAX / 2 { unimplemented!() }
/// the first place of a text at or behind a
pub open spec fn here(line: Seq<char>, q: int, w: Seq<char>) -> bool { 0 <= q && q + w.len() <= line.len() && line.subrange(q, q + w.len()) == w }
#[verifier::external_body]
fn find_from(line: &str, from: usize, word: &str) -> (r: Option<usize>)
    requires edge(line@, from as int),
    ensures r is Some ==> edge(line@, r->Some_0 + from) && here(line@, nth(line@, r->Some_0 + from), word@) && nth(line@, from as int) <= nth(line@, r->Some_0 + from) && forall|q: int| nth(line@, from as int) <= q < nth(line@, r->Some_0 + from) ==> !#[trigger] here(line@, q, word@),
        r is None ==> forall|q: int| nth(line@, from as int) <= q ==> !#[trigger] here(line@, q, word@),
{ line[from..].find(word) }
pub open spec fn glue(v: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { glue(v, n - 1) + v[n - 1] } }
proof fn lemma_glue(v: Seq<Seq<char>>, k: int, n: int)
    requires 0 <= k <= n <= v.len(), ensures glue(v, k).len() <= glue(v, n).len(), glue(v, n).subrange(0, glue(v, k).len() as int) =~= glue(v, k), decreases n - k,
{ if k < n { lemma_glue(v, k, n - 1); assert(glue(v, n).subrange(0, glue(v, k).len() as int) =~= glue(v, n - 1).subrange(0, glue(v, k).len() as int)); } }
/// user-perceived characters: none is empty or wider than two cells
#[verifier::external_body]
fn perceived<'a>(t: &'a str) -> (r: Vec<&'a str>)
    ensures glue(texts(r@), r@.len() as int) == t@, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() > 0 && width_of(r@[i]@) <= 2 { unimplemented!() }
/// the same with the byte where each starts
#[verifier::external_body]
fn perceived_at<'a>(t: &'a str) -> (r: Vec<(usize, &'a str)>)
    ensures glue(seconds(r@), r@.len() as int) == t@, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1@.len() > 0 && width_of(r@[i].1@) <= 2 && r@[i].0 == bytes(glue(seconds(r@), i)) { unimplemented!() }
pub open spec fn seconds(v: Seq<(usize, &str)>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].1@) }
#[verifier::external_body] pub struct Style { x: u8 }
#[verifier::external_body] pub struct InternalSpan { x: u8 }
#[verifier::external_body] pub struct LinkStyle { x: u8 }
#[verifier::external_body] pub struct Segment { x: u8 }
#[verifier::external_body] pub struct Strip { x: u8 }
impl Style { #[verifier::external_body] fn clone(&self) -> (r: Style) ensures r == *self { unimplemented!() } }
/// how a strip looks: the one style of its text, or the styles of the spans from a byte of the whole text on
pub enum Look { One(Option<Style>), Spans(int) }
impl Segment {
    pub uninterp spec fn text(self) -> Seq<char>;
    pub uninterp spec fn look(self) -> Option<Style>;
    #[verifier::external_body] fn styled(t: &str, s: Style) -> (r: Segment) ensures r.text() == t@, r.look() == Some(s) { unimplemented!() }
    #[verifier::external_body] fn new(t: &str) -> (r: Segment) ensures r.text() == t@, r.look() is None { unimplemented!() }
}
impl Strip {
    pub uninterp spec fn text(self) -> Seq<char>;
    pub uninterp spec fn look(self) -> Look;
    #[verifier::external_body] fn from_segment(s: Segment) -> (r: Strip) ensures r.text() == s.text(), r.look() == Look::One(s.look()) { unimplemented!() }
    pub uninterp spec fn new_spec() -> Strip;
    #[verifier::external_body] fn new() -> (r: Strip) ensures r == Strip::new_spec(), r.text() == Seq::<char>::empty() { unimplemented!() }
}
pub axiom fn axiom_new() ensures Strip::new_spec().text() == Seq::<char>::empty();
pub
//@ extract crates/textual/src/content.rs struct Content
//@ sub (text|style|spans|link_style|hovered_action): ==> pub \1:
//@ end
#[verifier::external_body]
fn owned(t: &str) -> (r: String) ensures r@ == t@ { t.to_string() }
#[verifier::external_body]
fn wipe(t: &mut String) ensures final(t)@ == Seq::<char>::empty() { t.clear() }
#[verifier::external_body]
fn is_void(t: &str) -> (r: bool) ensures r == (t@.len() == 0) { t.is_empty() }

// ---------------------------------------------------------------- the property for one line
/// what a wrapped line holds: whole words, or a part of a word that is wider than the line
pub enum Piece { Words(int, int), Part(int, int, int) }
pub struct At { pub word: int, pub from: int }
pub open spec fn begin(p: Piece) -> At { match p { Piece::Words(i, j) => At { word: i, from: 0 }, Piece::Part(i, a, b) => At { word: i, from: a } } }
pub open spec fn finish(p: Piece, w: Seq<Seq<char>>) -> At { match p { Piece::Words(i, j) => At { word: j, from: 0 }, Piece::Part(i, a, b) => if b == w[i].len() { At { word: i + 1, from: 0 } } else { At { word: i, from: b } } } }
/// what a piece shows, blanks aside
pub open spec fn marrow(p: Piece, w: Seq<Seq<char>>) -> Seq<char> { match p { Piece::Words(i, j) => span(w, i, j), Piece::Part(i, a, b) => w[i].subrange(a, b) } }
pub open spec fn span(w: Seq<Seq<char>>, i: int, j: int) -> Seq<char> decreases j - i { if j <= i { seq![] } else { span(w, i, j - 1) + w[j - 1] } }
#[verifier::opaque]
pub open spec fn visible(s: Seq<char>) -> Seq<char> { s.filter(|c: char| !blank(c)) }
pub open spec fn piece_ok(p: Piece, w: Seq<Seq<char>>, room: int) -> bool {
    match p { Piece::Words(i, j) => 0 <= i < j <= w.len(), Piece::Part(i, a, b) => 0 <= i < w.len() && 0 <= a < b <= w[i].len() && width_of(w[i]) > room }
}
/// a strip shows a piece within the width
pub open spec fn shows(s: Strip, p: Piece, w: Seq<Seq<char>>, room: int) -> bool { piece_ok(p, w, room) && visible(s.text()) == marrow(p, w) && width_of(s.text()) <= room }
/// pieces follow each other from the first word on up to a place
pub open spec fn chained(l: Seq<Piece>, w: Seq<Seq<char>>, to: At) -> bool {
    &&& l.len() == 0 ==> to == At { word: 0, from: 0 }
    &&& l.len() > 0 ==> begin(l[0]) == At { word: 0, from: 0 } && finish(l.last(), w) == to
    &&& forall|i: int| 0 <= i < l.len() - 1 ==> finish(#[trigger] l[i], w) == begin(l[i + 1])
}
#[verifier::opaque]
pub open spec fn laid_to(v: Seq<Strip>, l: Seq<Piece>, w: Seq<Seq<char>>, room: int, to: At) -> bool { l.len() == v.len() && chained(l, w, to) && forall|i: int| 0 <= i < v.len() ==> shows(#[trigger] v[i], l[i], w, room) }
pub open spec fn laid(v: Seq<Strip>, w: Seq<Seq<char>>, room: int) -> bool { exists|l: Seq<Piece>| laid_to(v, l, w, room, At { word: w.len() as int, from: 0 }) }
proof fn lemma_laid_push(v: Seq<Strip>, l: Seq<Piece>, w: Seq<Seq<char>>, room: int, to: At, s: Strip, p: Piece)
    requires laid_to(v, l, w, room, to), begin(p) == to, shows(s, p, w, room),
    ensures laid_to(v.push(s), l.push(p), w, room, finish(p, w)),
{ reveal(laid_to);
    let m = l.push(p);
    assert forall|i: int| 0 <= i < m.len() - 1 implies finish(#[trigger] m[i], w) == begin(m[i + 1]) by { if i + 1 < l.len() { assert(finish(l[i], w) == begin(l[i + 1])); } else { assert(m[i] == l.last()); } }
    assert forall|i: int| 0 <= i < v.push(s).len() implies shows(#[trigger] v.push(s)[i], m[i], w, room) by { if i < v.len() { assert(shows(v[i], l[i], w, room)); } }
}
/// pieces laid one behind the other give back all words
pub open spec fn marrows(l: Seq<Piece>, w: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { marrows(l, w, n - 1) + marrow(l[n - 1], w) } }
pub open spec fn upto(w: Seq<Seq<char>>, a: At) -> Seq<char> { if a.word < w.len() { span(w, 0, a.word) + w[a.word].subrange(0, a.from) } else { span(w, 0, a.word) } }
proof fn lemma_span_add(w: Seq<Seq<char>>, i: int, j: int, k: int) requires 0 <= i <= j <= k, ensures span(w, i, j) + span(w, j, k) =~= span(w, i, k), decreases k - j,
{ if j < k { lemma_span_add(w, i, j, k - 1); } }
/// THE PROPERTY: nothing visible of a line is lost, doubled or moved
proof fn theorem_nothing_lost(v: Seq<Strip>, l: Seq<Piece>, w: Seq<Seq<char>>, room: int, n: int)
    requires laid_to(v, l, w, room, At { word: w.len() as int, from: 0 }), 0 <= n <= l.len(),
    ensures n > 0 ==> marrows(l, w, n) =~= upto(w, finish(l[n - 1], w)), n == 0 ==> marrows(l, w, n) =~= seq![], n == l.len() ==> marrows(l, w, n) == span(w, 0, w.len() as int), decreases n,
{ reveal(laid_to);
    if n > 0 {
        theorem_nothing_lost(v, l, w, room, n - 1);
        let p = l[n - 1];
        assert(shows(v[n - 1], p, w, room));
        let b = begin(p);
        if n > 1 { assert(finish(l[n - 2], w) == b); assert(shows(v[n - 2], l[n - 2], w, room)); }
        assert(marrows(l, w, n - 1) =~= upto(w, b)) by { if n == 1 { assert(w[0].subrange(0, 0) =~= seq![]); } }
        match p {
            Piece::Words(i, j) => { lemma_span_add(w, 0, i, j); assert(w[i].subrange(0, 0) =~= seq![]); if j < w.len() { assert(w[j].subrange(0, 0) =~= seq![]); } },
            Piece::Part(i, a, e) => {
                assert(w[i].subrange(0, a) + w[i].subrange(a, e) =~= w[i].subrange(0, e));
                assert(upto(w, b) + w[i].subrange(a, e) =~= span(w, 0, i) + w[i].subrange(0, e));
                if e == w[i].len() { assert(w[i].subrange(0, e) =~= w[i]); assert(span(w, 0, i + 1) == span(w, 0, i) + w[i]); if i + 1 < w.len() { assert(w[i + 1].subrange(0, 0) =~= seq![]); } }
            },
        }
    } else if l.len() == 0 { }
}
proof fn lemma_visible_add(a: Seq<char>, b: Seq<char>) ensures visible(a + b) == visible(a) + visible(b)
{ reveal(visible); let p = |c: char| !blank(c); a.lemma_filter_len(p); Seq::filter_distributes_over_add(a, b, p); }
proof fn lemma_visible_solid(s: Seq<char>) requires solid(s), ensures visible(s) == s, decreases s.len(),
{ reveal(visible); reveal(Seq::filter); if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies !blank(#[trigger] s.drop_last()[i]) by { assert(!blank(s[i])); } lemma_visible_solid(s.drop_last()); assert(!blank(s[s.len() - 1])); assert(s.drop_last().push(s.last()) =~= s); } else { assert(visible(s) =~= s); } }
proof fn lemma_visible_blank(s: Seq<char>) requires all_blank(s), ensures visible(s) == Seq::<char>::empty(), decreases s.len(),
{ reveal(visible); reveal(Seq::filter); if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies blank(#[trigger] s.drop_last()[i]) by { assert(blank(s[i])); } lemma_visible_blank(s.drop_last()); assert(blank(s[s.len() - 1])); } else { assert(visible(s) =~= seq![]); } }
/// ... and the words are all there is to see in the line
proof fn theorem_words_are_all(line: Seq<char>, k: int)
    requires split_ok(line), 0 <= k <= words_of(line).len(),
    ensures k < words_of(line).len() ==> visible(line.subrange(0, starts(line)[k])) == span(words_of(line), 0, k), k == words_of(line).len() ==> visible(line) == span(words_of(line), 0, k), decreases k,
{ reveal(split_ok);
    let w = words_of(line);
    if k > 0 {
        theorem_words_are_all(line, k - 1);
        let a = starts(line)[k - 1]; let e = stop_of(line, k - 1);
        let b = if k < w.len() { starts(line)[k] } else { line.len() as int };
        assert(w[k - 1].len() > 0);
        if k < w.len() { assert(apart(line, k)); assert(w[k].len() > 0); }
        let g = line.subrange(e, b);
        assert forall|i: int| 0 <= i < g.len() implies blank(#[trigger] g[i]) by { assert(blank(line[e + i])); }
        assert(line.subrange(0, b) =~= line.subrange(0, a) + w[k - 1] + g);
        lemma_visible_add(line.subrange(0, a) + w[k - 1], g); lemma_visible_add(line.subrange(0, a), w[k - 1]); lemma_visible_solid(w[k - 1]); lemma_visible_blank(g);
        assert(visible(line.subrange(0, b)) =~= visible(line.subrange(0, a)) + w[k - 1]);
        if k == w.len() { assert(line.subrange(0, b) =~= line); }
    } else {
        let b = if 0 < w.len() { starts(line)[0] } else { line.len() as int };
        if w.len() > 0 { assert(w[0].len() > 0); }
        let g = line.subrange(0, b);
        assert forall|i: int| 0 <= i < g.len() implies blank(#[trigger] g[i]) by { assert(blank(line[i])); }
        lemma_visible_blank(g);
        if w.len() == 0 { assert(g =~= line); }
    }
}
pub axiom fn axiom_space() ensures blank(' ');
pub open spec fn looks_like(v: Seq<Strip>, l: Look) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).look() == l }
/// strips that show the parts of a word from a on
#[verifier::opaque]
pub open spec fn broken(v: Seq<Strip>, w: Seq<char>, room: int) -> bool { exists|c: Seq<int>| broken_at(v, c, w, room) && c.len() > 1 && c.last() == w.len() }
pub open spec fn part_of(s: Strip, a: int, b: int, w: Seq<char>, room: int) -> bool { 0 <= a < b <= w.len() && s.text() == w.subrange(a, b) && width_of(s.text()) <= room }
#[verifier::opaque]
pub open spec fn broken_at(v: Seq<Strip>, c: Seq<int>, w: Seq<char>, room: int) -> bool {
    c.len() == v.len() + 1 && c[0] == 0 && forall|i: int| 0 <= i < v.len() ==> #[trigger] part_of(v[i], c[i], c[i + 1], w, room)
}
proof fn lemma_broken_push(v: Seq<Strip>, c: Seq<int>, w: Seq<char>, room: int, s: Strip, at: int)
    requires broken_at(v, c, w, room), 0 <= c.last() < at <= w.len(), s.text() == w.subrange(c.last(), at), width_of(s.text()) <= room,
    ensures broken_at(v.push(s), c.push(at), w, room),
{ reveal(broken_at);
    let u = v.push(s); let d = c.push(at);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] part_of(u[i], d[i], d[i + 1], w, room) by { if i < v.len() { assert(part_of(v[i], c[i], c[i + 1], w, room)); assert(u[i] == v[i] && d[i] == c[i] && d[i + 1] == c[i + 1]); } }
}
proof fn lemma_word(line: Seq<char>, k: int) requires split_ok(line), 0 <= k < words_of(line).len(), ensures words_of(line)[k].len() > 0, solid(words_of(line)[k]), starts(line).len() == words_of(line).len() { reveal(split_ok); assert(words_of(line)[k].len() > 0); }
proof fn lemma_nothing_yet(w: Seq<Seq<char>>, room: int) ensures laid_to(seq![], seq![], w, room, At { word: 0, from: 0 }), visible(seq![]) == Seq::<char>::empty() { reveal(laid_to); lemma_visible_solid(seq![]); }
/// a word joins those in front of it
proof fn lemma_joined(w: Seq<Seq<char>>, i: int, k: int, cur: Seq<char>)
    requires 0 <= i <= k < w.len(), solid(w[k]), w[k].len() > 0, visible(cur) == span(w, i, k),
    ensures visible(cur.push(' ') + w[k]) == span(w, i, k + 1), width_of(cur.push(' ') + w[k]) <= width_of(cur) + 1 + width_of(w[k]), visible(w[k]) == span(w, k, k + 1), width_of(w[k]) > 0,
{
    let g = w[k];
    axiom_space(); lemma_visible_solid(g); lemma_visible_add(cur, seq![' ']); lemma_visible_add(cur + seq![' '], g); lemma_visible_blank(seq![' ']);
    axiom_width(cur, seq![' ']); axiom_width(cur + seq![' '], g); axiom_width(g, g);
    assert(cur.push(' ') =~= cur + seq![' ']);
    assert(visible(cur + seq![' '] + g) =~= visible(cur) + g);
    assert(span(w, k, k + 1) =~= g) by { reveal_with_fuel(span, 2); }
}
spec fn cuts(b: Seq<Strip>, w: Seq<char>, room: int) -> Seq<int> { choose|c: Seq<int>| broken_at(b, c, w, room) && c.len() > 1 && c.last() == w.len() }
spec fn parts_of(k: int, c: Seq<int>, n: int) -> Seq<Piece> { Seq::new(n as nat, |i: int| Piece::Part(k, c[i], c[i + 1])) }
/// a word broken into strips joins the layout
proof fn lemma_laid_word(v: Seq<Strip>, l: Seq<Piece>, w: Seq<Seq<char>>, room: int, k: int, b: Seq<Strip>)
    requires laid_to(v, l, w, room, At { word: k, from: 0 }), 0 <= k < w.len(), broken(b, w[k], room), w[k].len() > 0, solid(w[k]), width_of(w[k]) > room,
    ensures laid_to(v + b, l + parts_of(k, cuts(b, w[k], room), b.len() as int), w, room, At { word: k + 1, from: 0 }),
{ reveal(broken); lemma_laid_broken(v, l, w, room, k, b, cuts(b, w[k], room), b.len() as int); assert(b.subrange(0, b.len() as int) =~= b); }
proof fn lemma_laid_broken(v: Seq<Strip>, l: Seq<Piece>, w: Seq<Seq<char>>, room: int, k: int, b: Seq<Strip>, c: Seq<int>, n: int)
    requires laid_to(v, l, w, room, At { word: k, from: 0 }), 0 <= k < w.len(), broken_at(b, c, w[k], room), c.last() == w[k].len(), w[k].len() > 0, solid(w[k]), width_of(w[k]) > room, 0 <= n <= b.len(),
    ensures laid_to(v + b.subrange(0, n), l + Seq::new(n as nat, |i: int| Piece::Part(k, c[i], c[i + 1])), w, room, if n == b.len() { At { word: k + 1, from: 0 } } else { At { word: k, from: c[n] } }),
        n < b.len() ==> c[n] < w[k].len(),
    decreases n,
{ reveal(broken_at); reveal(laid_to);
    assert(b.len() > 0);
    if n < b.len() { assert(part_of(b[n], c[n], c[n + 1], w[k], room)); }
    if n > 0 {
        lemma_laid_broken(v, l, w, room, k, b, c, n - 1);
        let s = b[n - 1]; let p = Piece::Part(k, c[n - 1], c[n]);
        assert(part_of(s, c[n - 1], c[n - 1 + 1], w[k], room));
        assert forall|i: int| 0 <= i < s.text().len() implies !blank(#[trigger] s.text()[i]) by { assert(!blank(w[k][c[n - 1] + i])); }
        lemma_visible_solid(s.text());
        let l1 = l + Seq::new((n - 1) as nat, |i: int| Piece::Part(k, c[i], c[i + 1]));
        let v1 = v + b.subrange(0, n - 1);
        lemma_laid_push(v1, l1, w, room, At { word: k, from: c[n - 1] }, s, p);
        assert(v1.push(s) =~= v + b.subrange(0, n));
        assert(l1.push(p) =~= l + Seq::new(n as nat, |i: int| Piece::Part(k, c[i], c[i + 1])));
        if n < b.len() { } else { assert(c[n] == c.last()); }
    } else {
        assert(v + b.subrange(0, 0) =~= v);
        assert(l + Seq::new(0 as nat, |i: int| Piece::Part(k, c[i], c[i + 1])) =~= l);
    }
}
#[verifier::external_body]
fn extend(v: &mut Vec<Strip>, more: Vec<Strip>) ensures final(v)@ == old(v)@ + more@, final(v)@.subrange(old(v)@.len() as int, final(v)@.len() as int) == more@ { v.extend(more) }
/// strips that show what stands at some place of the line, with the styles of that place
#[verifier::opaque]
pub open spec fn placed(v: Seq<Strip>, line: Seq<char>, start: int) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] in_place(v[i], line, start) }
pub open spec fn in_place(s: Strip, line: Seq<char>, start: int) -> bool { exists|a: int, b: int| #[trigger] stands(s, line, start, a, b) }
pub open spec fn stands(s: Strip, line: Seq<char>, start: int, a: int, b: int) -> bool { 0 <= a <= b <= line.len() && s.text() == line.subrange(a, b) && s.look() == Look::Spans(start + off(line, a)) }
proof fn lemma_placed_push(v: Seq<Strip>, line: Seq<char>, start: int, s: Strip, a: int, b: int)
    requires placed(v, line, start), stands(s, line, start, a, b), ensures placed(v.push(s), line, start)
{ reveal(placed); assert forall|i: int| 0 <= i < v.push(s).len() implies #[trigger] in_place(v.push(s)[i], line, start) by { if i < v.len() { assert(in_place(v[i], line, start)); } } }
proof fn lemma_off_sub(s: Seq<char>, a: int, b: int, k: int)
    requires 0 <= a <= b <= s.len(), 0 <= k <= b - a, ensures off(s, a + k) == off(s, a) + off(s.subrange(a, b), k), decreases k,
{ if k > 0 { lemma_off_sub(s, a, b, k - 1); } }
proof fn lemma_place(line: Seq<char>, k: int)
    requires split_ok(line), 0 <= k < words_of(line).len(),
    ensures 0 <= starts(line)[k] < stop_of(line, k) <= line.len(), words_of(line)[k] == line.subrange(starts(line)[k], stop_of(line, k)), starts(line).len() == words_of(line).len(), words_of(line)[k].len() > 0, solid(words_of(line)[k]),
        k > 0 ==> 0 <= stop_of(line, k - 1) < starts(line)[k] && gap(line, stop_of(line, k - 1), starts(line)[k]), k == 0 ==> gap(line, 0, starts(line)[0]),
        here(line, starts(line)[k], words_of(line)[k]), off(line, stop_of(line, k)) == off(line, starts(line)[k]) + bytes(words_of(line)[k]),
        0 <= off(line, starts(line)[k]) < off(line, stop_of(line, k)) <= bytes(line), edge(line, off(line, starts(line)[k])), edge(line, off(line, stop_of(line, k))),
{
    reveal(split_ok); assert(words_of(line)[k].len() > 0); if k > 0 { assert(apart(line, k)); assert(words_of(line)[k - 1].len() > 0); }
    lemma_off_sub(line, starts(line)[k], stop_of(line, k), words_of(line)[k].len() as int);
    lemma_nth(line, starts(line)[k]); lemma_nth(line, stop_of(line, k)); lemma_off(line, starts(line)[k], stop_of(line, k));
}
/// no word begins in a gap
proof fn lemma_not_here(line: Seq<char>, a: int, b: int, w: Seq<char>)
    requires 0 <= a <= b <= line.len(), gap(line, a, b), w.len() > 0, solid(w), ensures forall|q: int| a <= q < b ==> !#[trigger] here(line, q, w),
{ assert forall|q: int| a <= q < b implies !#[trigger] here(line, q, w) by { if here(line, q, w) { assert(line.subrange(q, q + w.len())[0] == line[q]); assert(blank(line[q])); assert(!blank(w[0])); } } }
/// a word with the blanks in front of it joins a segment
proof fn lemma_segment(line: Seq<char>, a: int, b: int, k: int)
    requires split_ok(line), 0 <= k < words_of(line).len(), 0 <= a <= b <= starts(line)[k], gap(line, b, starts(line)[k]),
    ensures visible(line.subrange(a, stop_of(line, k))) == visible(line.subrange(a, b)) + words_of(line)[k],
{
    lemma_place(line, k);
    let s = starts(line)[k]; let g = line.subrange(b, s);
    assert forall|i: int| 0 <= i < g.len() implies blank(#[trigger] g[i]) by { assert(blank(line[b + i])); }
    assert(line.subrange(a, stop_of(line, k)) =~= line.subrange(a, b) + g + words_of(line)[k]);
    lemma_visible_add(line.subrange(a, b) + g, words_of(line)[k]); lemma_visible_add(line.subrange(a, b), g); lemma_visible_blank(g); lemma_visible_solid(words_of(line)[k]);
    assert(visible(line.subrange(a, b)) + seq![] =~= visible(line.subrange(a, b)));
}
// ---------------------------------------------------------------- whole texts
pub enum TextOverflow { Clip, Fold, Ellipsis }
pub enum TextWrap { Wrap, NoWrap }
pub
//@ extract crates/textual/src/content.rs struct WrappedLine
//@ end
impl WrappedLine {
//@ extract crates/textual/src/content.rs fn WrappedLine::new
//@ ret r
//@ contract
    ensures r.strip == strip, r.line_end == line_end,
//@ end
}
pub uninterp spec fn lines_of(t: Seq<char>) -> Seq<Seq<char>>;
/// where line k starts, in bytes
pub open spec fn line_at(t: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { line_at(t, k - 1) + bytes(lines_of(t)[k - 1]) + 1 } }
#[verifier::external_body]
fn split_lines<'a>(t: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == lines_of(t@), r@.len() > 0, forall|k: int| 0 <= k < r@.len() ==> 0 <= line_at(t@, k) && #[trigger] line_at(t@, k) + bytes(r@[k]@) < usize::MAX { t.split('\n').collect() }
#[verifier::external_body]
fn taken(v: &Vec<Strip>, k: usize) -> (r: Strip) requires k < v@.len(), ensures r == v@[k as int] { unimplemented!() }
#[verifier::external_body]
fn last_style(s: &Strip) -> Option<Style> { unimplemented!() }
impl Strip {
    #[verifier::external_body] fn cell_length(&self) -> (r: usize) ensures r == width_of(self.text()), r <= usize::MAX / 2 { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Strip) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn crop(&self, a: usize, b: usize) -> (r: Strip) requires a <= b, ensures width_of(r.text()) <= b - a, bound(self.text(), a as int) && bound(self.text(), b as int) ==> 0 <= place(self.text(), a as int) <= place(self.text(), b as int) <= self.text().len() && r.text() == self.text().subrange(place(self.text(), a as int), place(self.text(), b as int)) { unimplemented!() }
    #[verifier::external_body] fn join2(a: Strip, b: Strip) -> (r: Strip) ensures r.text() == a.text() + b.text() { unimplemented!() }
    #[verifier::external_body] fn ellipsis(s: Option<Style>) -> (r: Strip) ensures width_of(r.text()) == 1 { unimplemented!() }
}
//@ extract crates/textual/src/content.rs fn truncate_with_ellipsis
//@ ret r
//@ sub (?:strip|cropped)\s*\.segments\(\)\s*\.last\(\)\s*\.and_then\(\|segment\| segment\.style\(\)\.cloned\(\)\) ==> last_style(strip)
//@ sub let ellipsis = match (\w+) \{\s*Some\(style\) => Segment::styled\("…", style\),\s*None => Segment::new\("…"\),\s*\}; ==> let ellipsis = Strip::ellipsis(\1);
//@ sub Strip::from_segment\(ellipsis\) ==> ellipsis
//@ sub Strip::join\(vec!\[cropped, ellipsis\]\) ==> Strip::join2(cropped, ellipsis)
//@ contract
    requires width >= 1, ensures width_of(r.text()) <= width, width_of(strip.text()) <= width ==> r == *strip,
//@ sub? (Strip::join2) ==> proof { axiom_width(cropped.text(), ellipsis.text()); } \1
//@ end
/// does a user-perceived character begin at a cell, and which character of the text is that
pub uninterp spec fn begins_at(t: Seq<char>, cell: int) -> bool;
pub uninterp spec fn place(t: Seq<char>, cell: int) -> int;
pub open spec fn bound(t: Seq<char>, cell: int) -> bool { begins_at(t, cell) || cell == 0 || cell == width_of(t) }
/// no user-perceived character is wider than two cells
pub axiom fn axiom_begins(t: Seq<char>, cell: int) ensures place(t, 0) == 0, place(t, width_of(t)) == t.len(), 0 < cell < width_of(t) && !begins_at(t, cell) ==> begins_at(t, cell - 1);
#[verifier::external_body]
fn begins(strip: &Strip) -> (r: Vec<usize>) ensures forall|x: usize| #[trigger] r@.contains(x) <==> begins_at(strip.text(), x as int) { unimplemented!() }
#[verifier::external_body]
fn contains(v: &Vec<usize>, x: usize) -> (r: bool) ensures r == v@.contains(x) { v.binary_search(&x).is_ok() }
/// strips that hold a text, one part after the other
#[verifier::opaque]
pub open spec fn folded_at(v: Seq<Strip>, t: Seq<char>, c: Seq<int>) -> bool { c.len() == v.len() + 1 && c[0] == 0 && forall|i: int| 0 <= i < v.len() ==> #[trigger] holds(v[i], t, c[i], c[i + 1]) }
pub open spec fn holds(s: Strip, t: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= t.len() && s.text() == t.subrange(a, b) }
pub open spec fn folded(v: Seq<Strip>, t: Seq<char>) -> bool { exists|c: Seq<int>| #[trigger] folded_at(v, t, c) && c.last() == t.len() }
proof fn lemma_fold_push(v: Seq<Strip>, t: Seq<char>, c: Seq<int>, s: Strip, at: int) requires folded_at(v, t, c), holds(s, t, c.last(), at), ensures folded_at(v.push(s), t, c.push(at))
{ reveal(folded_at); let d = c.push(at); assert forall|i: int| 0 <= i < v.push(s).len() implies #[trigger] holds(v.push(s)[i], t, d[i], d[i + 1]) by { if i < v.len() { assert(holds(v[i], t, c[i], c[i + 1])); } } }
pub open spec fn fit(v: Seq<Strip>, room: int) -> bool { forall|i: int| 0 <= i < v.len() ==> width_of((#[trigger] v[i]).text()) <= room }
//@ extract crates/textual/src/content.rs fn split_strip_by_width
//@ ret r
//@ sub vec!\[Strip::new\(\)\] ==> one(Strip::new())
//@ sub let mut char_starts.*?let mut parts = Vec::new\(\); ==> let char_starts = begins(strip); let mut parts: Vec<Strip> = Vec::new();
//@ sub char_starts\.binary_search\(&(\w+)\)\.is_err\(\) ==> !contains(&char_starts, \1)
//@ sub \(start \+ width\)\.min\(total\) ==> lesser(start + width, total)
//@ contract
    requires 2 <= width < usize::MAX / 4, ensures r@.len() > 0, fit(r@, width as int), folded(r@, strip.text()),
//@ start
    let ghost t = strip.text();
    let ghost mut c: Seq<int> = seq![0];
    proof { axiom_width(seq![], seq![]); axiom_width(t, t); axiom_begins(t, 0); reveal(folded_at);
        if width_of(t) == 0 { assert(t =~= seq![]); let v = seq![Strip::new_spec()]; assert(holds(v[0], t, 0, 0)) by { axiom_new(); assert(t.subrange(0, 0) =~= seq![]); } assert(folded_at(v, t, seq![0, 0])); axiom_new(); assert(seq![0int, 0].last() == t.len()); } }
//@ loop 1
    invariant t == strip.text(), 2 <= width < usize::MAX / 4, 0 <= start <= total, total == width_of(t), total <= usize::MAX / 2, total > 0, start > 0 ==> parts@.len() > 0, fit(parts@, width as int),
        forall|x: usize| #[trigger] char_starts@.contains(x) <==> begins_at(t, x as int), bound(t, start as int), place(t, width_of(t)) == t.len(),
        folded_at(parts@, t, c), c.last() == place(t, start as int),
    decreases total - start,
//@ loop_start 1
    let ghost had = parts@;
    proof { axiom_begins(t, lesser_spec(start + width, total as int)); }
//@ loop_end 1
    proof { assert(holds(parts@.last(), t, c.last(), place(t, start as int))); lemma_fold_push(had, t, c, parts@.last(), place(t, start as int)); assert(parts@ =~= had.push(parts@.last())); c = c.push(place(t, start as int)); }
//@ end
pub open spec fn lesser_spec(a: int, b: int) -> int { if a <= b { a } else { b } }
fn lesser(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
fn one(s: Strip) -> (r: Vec<Strip>) ensures r@ == seq![s] { let mut v = Vec::new(); v.push(s); proof { assert(v@ =~= seq![s]); } v }
pub open spec fn strips(v: Seq<WrappedLine>) -> Seq<Strip> { Seq::new(v.len(), |i: int| v[i].strip) }
/// what wrapping makes of one line: pieces within the width, the last of them (and no other) marked as the end
#[verifier::opaque]
pub open spec fn wrapped_line(v: Seq<WrappedLine>, line: Seq<char>, start: int, c: Content, room: int, wrap: bool, over: TextOverflow) -> bool {
    &&& v.len() > 0
    &&& marked(v)
    &&& fit(strips(v), room)
    &&& wrap && words_of(line).len() > 0 ==> laid(strips(v), words_of(line), room) && if c.spans is Some { placed(strips(v), line, start) } else { looks_like(strips(v), Look::One(c.style)) }
    &&& words_of(line).len() == 0 && wrap ==> v.len() == 1 && v[0].strip.text().len() == 0
    &&& !wrap && over is Fold ==> folded(strips(v), line)
    &&& !wrap && !(over is Fold) ==> v.len() == 1
}
pub open spec fn from_of(ends: Seq<int>, k: int) -> int { if k <= 0 { 0 } else { ends[k - 1] } }
/// THE PROPERTY for whole texts: line after line
#[verifier::opaque]
pub open spec fn wrapped_all(v: Seq<WrappedLine>, ends: Seq<int>, c: Content, n: int, room: int, wrap: bool, over: TextOverflow) -> bool {
    &&& ends.len() == n && from_of(ends, n) == v.len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] wrapped_one(v, ends, k, c, room, wrap, over)
}
pub open spec fn wrapped_one(v: Seq<WrappedLine>, ends: Seq<int>, k: int, c: Content, room: int, wrap: bool, over: TextOverflow) -> bool {
    0 <= from_of(ends, k) < ends[k] <= v.len() && wrapped_line(v.subrange(from_of(ends, k), ends[k]), lines_of(c.text@)[k], line_at(c.text@, k), c, room, wrap, over)
}
proof fn lemma_wrapped_more(v: Seq<WrappedLine>, ends: Seq<int>, c: Content, n: int, room: int, wrap: bool, over: TextOverflow, more: Seq<WrappedLine>)
    requires wrapped_all(v, ends, c, n, room, wrap, over), n >= 0, wrapped_line(more, lines_of(c.text@)[n], line_at(c.text@, n), c, room, wrap, over),
    ensures wrapped_all(v + more, ends.push((v.len() + more.len()) as int), c, n + 1, room, wrap, over),
{
    reveal(wrapped_all); reveal(wrapped_line);
    let u = v + more; let d = ends.push((v.len() + more.len()) as int);
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] wrapped_one(u, d, k, c, room, wrap, over) by {
        if k < n { assert(wrapped_one(v, ends, k, c, room, wrap, over)); assert(from_of(d, k) == from_of(ends, k) && d[k] == ends[k]); assert(u.subrange(from_of(d, k), d[k]) =~= v.subrange(from_of(ends, k), ends[k])); }
        else { assert(from_of(d, n) == v.len()); assert(u.subrange(v.len() as int, d[n]) =~= more); }
    }
}
proof fn lemma_laid_fit(v: Seq<Strip>, w: Seq<Seq<char>>, room: int) requires laid(v, w, room), ensures fit(v, room), w.len() > 0 ==> v.len() > 0, w.len() == 0 ==> v.len() == 0
{
    let l = choose|l: Seq<Piece>| laid_to(v, l, w, room, At { word: w.len() as int, from: 0 });
    reveal(laid_to);
    assert forall|i: int| 0 <= i < v.len() implies width_of((#[trigger] v[i]).text()) <= room by { assert(shows(v[i], l[i], w, room)); }
    if v.len() > 0 && w.len() == 0 { assert(shows(v[0], l[0], w, room)); }
}
impl Content {
//@ extract crates/textual/src/content.rs fn Content::break_word
//@ ret r
//@ sub let mut result = Vec::new\(\); ==> let mut result: Vec<Strip> = Vec::new();
//@ sub let mut current_width = 0; ==> let mut current_width: usize = 0; let parts = perceived(word);
//@ sub for grapheme in graphemes\(word\) \{ ==> for k in 0..parts.len() { let grapheme = parts[k];
//@ sub current\.push_str\(grapheme\) ==> add_str(&mut current, grapheme)
//@ sub current\.is_empty\(\) ==> is_void(&current)
//@ sub grapheme\.to_string\(\) ==> owned(grapheme)
//@ sub? \bresult\s*\}\s*$ ==> proof { if result@.len() > had.len() { lemma_broken_push(had, cut, word@, width as int, result@.last(), at); assert(result@ =~= had.push(result@.last())); } reveal(broken); assert(broken_at(result@, cut.push(at), word@, width as int)); assert(cut.push(at).last() == word@.len()); } result }
//@ contract
    requires 2 <= width < usize::MAX - 2, word@.len() > 0,
    ensures broken(r@, word@, width as int), looks_like(r@, Look::One(self.style)),
//@ start
    let ghost mut c: Seq<int> = seq![0];
    let ghost mut at: int = 0;
    proof { reveal(broken_at); axiom_width(seq![], seq![]); }
//@ loop 1
    invariant glue(texts(parts@), parts@.len() as int) == word@, 2 <= width < usize::MAX - 2, forall|i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i])@.len() > 0 && width_of(parts@[i]@) <= 2,
        broken_at(result@, c, word@, width as int),
        looks_like(result@, Look::One(self.style)),
        at == glue(texts(parts@), k as int).len(), 0 <= c.last() <= at <= word@.len(),
        current@ =~= word@.subrange(c.last(), at), width_of(current@) <= current_width <= width, k == 0 ==> at == 0, k > 0 ==> c.last() < at,
//@ loop_start 1
    let ghost g = parts@[k as int]@; let ghost had = result@; let ghost cur = current@;
    proof { lemma_glue(texts(parts@), k + 1, parts@.len() as int); lemma_glue(texts(parts@), k as int, k + 1); axiom_width(cur, g); axiom_width(g, cur); assert(texts(parts@)[k as int] == g); let q = glue(texts(parts@), k + 1); assert(q == glue(texts(parts@), k as int) + g); assert forall|i: int| 0 <= i < g.len() implies word@[at + i] == g[i] by { assert(word@.subrange(0, q.len() as int)[at + i] == q[at + i]); } assert(word@.subrange(at, at + g.len()) =~= g); }
//@ loop_end 1
    proof {
        if result@.len() > had.len() { lemma_broken_push(had, c, word@, width as int, result@.last(), at); c = c.push(at); assert(result@ =~= had.push(result@.last())); }
        at = at + g.len();
    }
//@ after_loop 1
    proof { assert(word@.subrange(0, word@.len() as int) =~= word@); }
    let ghost had = result@; let ghost cut = c;
//@ end
//@ extract crates/textual/src/content.rs fn Content::wrap_line
//@ ret r
//@ sub let mut result = Vec::new\(\); ==> let mut result: Vec<Strip> = Vec::new();
//@ sub let mut current_width = 0; ==> let mut current_width: usize = 0; let parts = split_words(line);
//@ sub for word in line\.split_whitespace\(\) \{ ==> for k in 0..parts.len() { let word = parts[k];
//@ sub current_line\.push_str\(word\) ==> add_str(&mut current_line, word)
//@ sub current_line\.push\(' '\) ==> add_char(&mut current_line, ' ')
//@ sub current_line\.clear\(\) ==> wipe(&mut current_line)
//@ sub current_line\.is_empty\(\) ==> is_void(&current_line)
//@ sub word\.to_string\(\) ==> owned(word)
//@ sub result\.extend\(self\.break_word\(word, width\)\) ==> extend(&mut result, self.break_word(word, width))
//@ contract
    requires 2 <= width < usize::MAX / 4,
    ensures fit(r@, width as int), (r@.len() == 0) == (words_of(line@).len() == 0), laid(r@, words_of(line@), width as int), looks_like(r@, Look::One(self.style)), split_ok(line@),
//@ start
    let ghost w = words_of(line@);
    let ghost mut l: Seq<Piece> = seq![];
    let ghost mut i: int = 0;
    proof { axiom_width(seq![], seq![]); lemma_nothing_yet(w, width as int); }
//@ loop 1
    invariant texts(parts@) == w, w == words_of(line@), split_ok(line@), 2 <= width < usize::MAX / 4, width_of(seq![]) == 0, visible(seq![]) == Seq::<char>::empty(),
        laid_to(result@, l, w, width as int, At { word: i, from: 0 }), looks_like(result@, Look::One(self.style)),
        0 <= i <= k, i < k <==> current_line@.len() > 0, i < k <==> current_width > 0, current_width <= width, width_of(current_line@) <= current_width, visible(current_line@) == span(w, i, k as int),
//@ loop_start 1
    let ghost had = result@; let ghost cur = current_line@; let ghost g = parts@[k as int]@; let ghost i0 = i; let ghost kk = k as int;
    proof { assert(texts(parts@)[kk] == g); lemma_word(line@, kk); lemma_joined(w, i, kk, cur); assert(cur =~= seq![] || cur.len() > 0); assert(span(w, kk + 1, kk + 1) == Seq::<char>::empty()); }
//@ loop_end 1
    proof {
        let mid = if i0 < k && result@.len() > had.len() { had.push(result@[had.len() as int]) } else { had };
        if i0 < k && result@.len() > had.len() {
            lemma_laid_push(had, l, w, width as int, At { word: i0, from: 0 }, mid.last(), Piece::Words(i0, kk)); l = l.push(Piece::Words(i0, kk));
            i = kk;
        }
        if width_of(g) > width {
            let b = result@.subrange(mid.len() as int, result@.len() as int);
            assert(broken(b, g, width as int));
            lemma_laid_word(mid, l, w, width as int, kk, b);
            assert(mid + b =~= result@);
            l = l + parts_of(kk, cuts(b, w[kk], width as int), b.len() as int);
            i = kk + 1;
        } else { assert(result@ =~= mid); }
    }
//@ after_loop 1
    let ghost had = result@;
//@ sub? \bresult\s*\}\s*$ ==> proof { let n = w.len() as int; if result@.len() > had.len() { lemma_laid_push(had, l, w, width as int, At { word: i, from: 0 }, result@.last(), Piece::Words(i, n)); assert(result@ =~= had.push(result@.last())); l = l.push(Piece::Words(i, n)); } assert(laid_to(result@, l, w, width as int, At { word: n, from: 0 })); lemma_laid_fit(result@, w, width as int); } result }
//@ end
    #[verifier::external_body]
    fn render_line_with_spans(&self, line: &str, line_start: usize, line_end: usize, spans: &[InternalSpan]) -> (r: Strip)
        requires line_end == line_start + bytes(line@), ensures r.text() == line@, r.look() == Look::Spans(line_start as int) { unimplemented!() }

//@ extract crates/textual/src/content.rs fn Content::wrap_line_with_spans
//@ ret r
//@ sub let mut result = Vec::new\(\); ==> let mut result: Vec<Strip> = Vec::new();
//@ sub line\.split_whitespace\(\)\.collect\(\) ==> split_words(line)
//@ sub for word in &words \{ ==> for k in 0..words.len() { let word = words[k];
//@ sub line\[search_start\.\.\]\.find\(word\) ==> find_from(line, search_start, word)
//@ sub word\.len\(\) ==> byte_len(word)
//@ sub for \(offset, grapheme\) in grapheme_indices\(([^{]*)\) \{ ==> let parts = perceived_at(\1); for k in 0..parts.len() { let offset = parts[k].0; let grapheme = parts[k].1;
//@ sub &line\[(\w+)\.\.(\w+)\] ==> slice(line, \1, \2)
//@ sub line\.len\(\) ==> byte_len(line)
//@ contract
    requires 2 <= width < usize::MAX / 4, line_start + bytes(line@) <= usize::MAX,
    ensures fit(r@, width as int), (r@.len() == 0) == (words_of(line@).len() == 0), laid(r@, words_of(line@), width as int), placed(r@, line@, line_start as int), split_ok(line@),
//@ start
    let ghost ln = line@;
    let ghost w = words_of(ln);
    proof { lemma_nothing_yet(w, width as int); reveal(placed); lemma_nth(ln, 0); }
//@ loop 1
    invariant ln == line@, w == words_of(ln), texts(words@) == w, split_ok(ln), line_start + bytes(ln) <= usize::MAX, word_positions@.len() == k, edge(ln, search_start as int),
        nth(ln, search_start as int) == if k == 0 { 0 } else { stop_of(ln, k - 1) },
        forall|j: int| 0 <= j < k ==> #[trigger] word_positions@[j] == (off(ln, starts(ln)[j]) as usize, off(ln, stop_of(ln, j)) as usize),
//@ loop_start 1
    proof { let kk = k as int; assert(texts(words@)[kk] == words@[kk]@); lemma_place(ln, kk); lemma_not_here(ln, if kk == 0 { 0 } else { stop_of(ln, kk - 1) }, starts(ln)[kk], w[kk]); lemma_nth(ln, starts(ln)[kk]); lemma_nth(ln, stop_of(ln, kk)); }
//@ before_loop 2
    let ghost n = w.len() as int;
    let ghost mut l: Seq<Piece> = seq![];
    let ghost mut a: int = 0; let ghost mut b: int = 0; let ghost mut j: int = 0;
    proof { if n > 0 { lemma_place(ln, 0); } }
//@ loop 2
    invariant ln == line@, w == words_of(ln), texts(words@) == w, n == w.len(), split_ok(ln), line_start + bytes(ln) <= usize::MAX, 2 <= width < usize::MAX / 4,
        word_positions@.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] word_positions@[j] == (off(ln, starts(ln)[j]) as usize, off(ln, stop_of(ln, j)) as usize),
        laid_to(result@, l, w, width as int, At { word: j, from: 0 }), placed(result@, ln, line_start as int),
        0 <= j <= i <= n, 0 <= a <= b <= ln.len(), segment_start == off(ln, a), segment_end == off(ln, b),
        a == b ==> j == i && (i < n ==> a <= starts(ln)[i as int] && gap(ln, a, starts(ln)[i as int])),
        a < b ==> j < i && b == stop_of(ln, i - 1) && visible(ln.subrange(a, b)) == span(w, j, i as int) && width_of(ln.subrange(a, b)) <= width,
    decreases n - i, if a < b { 2int } else if i < n && a < starts(ln)[i as int] { 1int } else { 0int },
//@ loop_start 2
    let ghost ii = i as int; let ghost s = starts(ln)[ii]; let ghost e = stop_of(ln, ii); let ghost had = result@; let ghost a0 = a; let ghost b0 = b; let ghost j0 = j;
    proof {
        lemma_place(ln, ii); lemma_nth(ln, a); lemma_nth(ln, b); lemma_nth(ln, s); lemma_nth(ln, e); lemma_off(ln, a, b); lemma_off(ln, a, s); lemma_off(ln, a, e);
        lemma_segment(ln, a, b, ii); lemma_visible_solid(seq![]); assert(ln.subrange(a, a) =~= seq![]); assert(span(w, ii, ii) == Seq::<char>::empty()); assert(Seq::<char>::empty() + w[ii] =~= w[ii]);
        assert(word_positions@[ii] == (off(ln, s) as usize, off(ln, e) as usize));
        if ii + 1 < n { lemma_place(ln, ii + 1); assert(word_positions@[ii + 1] == (off(ln, starts(ln)[ii + 1]) as usize, off(ln, stop_of(ln, ii + 1)) as usize)); }
        lemma_nth(ln, ln.len() as int); lemma_off_sub(ln, a, b, b - a);
    }
//@ loop_end 2
    proof {
        if i > ii && result@.len() == had.len() { b = e; }
        else if i == ii && a0 < b0 {
            assert(stands(result@.last(), ln, line_start as int, a0, b0)); lemma_placed_push(had, ln, line_start as int, result@.last(), a0, b0);
            lemma_laid_push(had, l, w, width as int, At { word: j0, from: 0 }, result@.last(), Piece::Words(j0, ii));
            assert(result@ =~= had.push(result@.last()));
            l = l.push(Piece::Words(j0, ii)); j = ii; a = s; b = s;
        } else if i == ii { a = s; b = s; }
        else {
            let t = result@.subrange(had.len() as int, result@.len() as int);
            assert(result@ =~= had + t);
            lemma_laid_word(had, l, w, width as int, ii, t);
            l = l + parts_of(ii, cuts(t, w[ii], width as int), t.len() as int); j = ii + 1;
            a = if ii + 1 < n { starts(ln)[ii + 1] } else { ln.len() as int }; b = a;
        }
    }
//@ after_loop 2
    let ghost had = result@; let ghost j0 = j;
    proof { lemma_nth(ln, a); lemma_nth(ln, b); lemma_off(ln, a, b); lemma_off_sub(ln, a, b, b - a); }
//@ sub? \bresult\s*\}\s*$ ==> proof { if a < b { assert(stands(result@.last(), ln, line_start as int, a, b)); lemma_placed_push(had, ln, line_start as int, result@.last(), a, b); lemma_laid_push(had, l, w, width as int, At { word: j0, from: 0 }, result@.last(), Piece::Words(j0, n)); assert(result@ =~= had.push(result@.last())); l = l.push(Piece::Words(j0, n)); } assert(laid_to(result@, l, w, width as int, At { word: n, from: 0 })); lemma_laid_fit(result@, w, width as int); } result }
//@ before_loop 3
    let ghost mut c: Seq<int> = seq![0];
    let ghost mut at: int = 0;
    proof { reveal(broken_at); assert(result@.subrange(had.len() as int, result@.len() as int) =~= seq![]); axiom_width(seq![], seq![]); assert(w[ii].subrange(0, 0) =~= seq![]); }
//@ loop 3
    invariant ln == line@, w == words_of(ln), 0 <= ii < n, n == w.len(), s == starts(ln)[ii], e == stop_of(ln, ii), word_start == off(ln, s), word_end == off(ln, e), line_start + bytes(ln) <= usize::MAX, 2 <= width < usize::MAX / 4,
        split_ok(ln), glue(seconds(parts@), parts@.len() as int) == w[ii], forall|i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i]).1@.len() > 0 && width_of(parts@[i].1@) <= 2 && parts@[i].0 == bytes(glue(seconds(parts@), i)),
        had.len() <= result@.len(), result@.subrange(0, had.len() as int) == had, broken_at(result@.subrange(had.len() as int, result@.len() as int), c, w[ii], width as int), placed(result@, ln, line_start as int),
        at == glue(seconds(parts@), k as int).len(), 0 <= c.last() <= at <= w[ii].len(), piece_start == off(ln, s + c.last()), width_of(w[ii].subrange(c.last(), at)) <= piece_width <= width, c.last() == at ==> piece_width == 0, k > 0 ==> c.last() < at,
//@ loop_start 3
    let ghost kk = k as int; let ghost g = parts@[kk].1@; let ghost was = result@; let ghost wd = w[ii];
    proof {
        lemma_place(ln, ii); let v = seconds(parts@); lemma_glue(v, kk, parts@.len() as int); lemma_glue(v, kk + 1, parts@.len() as int); lemma_glue(v, kk, kk + 1);
        assert(v[kk] == g); let q = glue(v, kk + 1); assert(q == glue(v, kk) + g); assert forall|i: int| 0 <= i < g.len() implies wd[at + i] == g[i] by { assert(wd.subrange(0, q.len() as int)[at + i] == q[at + i]); }
        assert(wd.subrange(at, at + g.len()) =~= g); assert(wd.subrange(c.last(), at + g.len()) =~= wd.subrange(c.last(), at) + g);
        axiom_width(wd.subrange(c.last(), at), g); axiom_width(g, g);
        lemma_off_sub(ln, s, e, at); lemma_off_same(wd, glue(v, kk), at);
        lemma_nth(ln, s + at); lemma_nth(ln, s + c.last()); lemma_off(ln, s + c.last(), s + at); lemma_off_sub(ln, s + c.last(), s + at, at - c.last());
        assert(ln.subrange(s + c.last(), s + at) =~= wd.subrange(c.last(), at));
    }
//@ after_loop 3
    let ghost was = result@; let ghost cut = c;
    proof {
        let wd = w[ii]; lemma_place(ln, ii);
        lemma_nth(ln, s + c.last()); lemma_nth(ln, e); lemma_off(ln, s + c.last(), e); lemma_off_sub(ln, s + c.last(), e, at - c.last());
        assert(ln.subrange(s + c.last(), e) =~= wd.subrange(c.last(), at));
    }
//@ sub? (i \+= 1;\s*segment_start =) ==> proof { let x = was.subrange(had.len() as int, was.len() as int); assert(stands(result@.last(), ln, line_start as int, s + cut.last(), e)); lemma_placed_push(was, ln, line_start as int, result@.last(), s + cut.last(), e); lemma_broken_push(x, cut, w[ii], width as int, result@.last(), e - s); assert(result@ =~= was.push(result@.last())); assert(result@.subrange(had.len() as int, result@.len() as int) =~= x.push(result@.last())); reveal(broken); assert(cut.push(e - s).last() == w[ii].len()); assert(broken(result@.subrange(had.len() as int, result@.len() as int), w[ii], width as int)); } \1
//@ loop_end 3
    proof {
        if result@.len() > was.len() {
            let x = was.subrange(had.len() as int, was.len() as int);
            assert(stands(result@.last(), ln, line_start as int, s + c.last(), s + at)); lemma_placed_push(was, ln, line_start as int, result@.last(), s + c.last(), s + at);
            lemma_broken_push(x, c, wd, width as int, result@.last(), at); assert(result@ =~= was.push(result@.last()));
            assert(result@.subrange(had.len() as int, result@.len() as int) =~= x.push(result@.last()));
            c = c.push(at);
        }
        at = at + g.len();
    }
//@ end
    #[verifier::external_body]
    fn full_line(&self, line: &str, line_start: usize, line_end: usize) -> (r: Strip) ensures r.text() == line@ { unimplemented!() }

//@ extract crates/textual/src/content.rs fn Content::wrap_with_line_end_overflow
//@ ret r
//@ sub vec!\[(WrappedLine::new\([^;]*\))\] ==> one_line(\1)
//@ sub let mut result = Vec::new\(\); ==> let mut result: Vec<WrappedLine> = Vec::new(); let lines = split_lines(&self.text);
//@ sub for line in self\.text\.split\('\\n'\) \{ ==> for k in 0..lines.len() { let line = lines[k];
//@ sub line\.len\(\) ==> byte_len(line)
//@ sub line\.is_empty\(\) ==> is_void(line)
//@ sub let render_full_line = \|\| \{.*?\};\s*match text_wrap ==> match text_wrap
//@ sub render_full_line\(\) ==> self.full_line(line, line_start, line_end)
//@ sub for \(index, (\w+)\) in (\w+)\.into_iter\(\)\.enumerate\(\) \{ ==> for index in 0..\2.len() { let \1 = taken(&\2, index);
//@ sub overflow == TextOverflow::Ellipsis ==> matches!(overflow, TextOverflow::Ellipsis)
//@ sub (self\.wrap_line_with_spans\([^;]*?), spans\) ==> \1, spans.as_slice())
//@ contract
    requires 2 <= width < usize::MAX / 4,
    ensures exists|ends: Seq<int>| #[trigger] wrapped_all(r@, ends, *self, lines_of(self.text@).len() as int, width as int, text_wrap is Wrap, overflow),
//@ start
    let ghost wrap = text_wrap is Wrap; let ghost over = overflow;
    let ghost mut ends: Seq<int> = seq![];
    proof { reveal(wrapped_all); axiom_width(seq![], seq![]); }
//@ loop 1
    invariant texts(lines@) == lines_of(self.text@), lines@.len() > 0, 2 <= width < usize::MAX / 4, wrap == (text_wrap is Wrap), over == overflow, width_of(seq![]) == 0, ends.len() == k, k > 0 ==> result@.len() > 0,
        forall|k: int| 0 <= k < lines@.len() ==> 0 <= line_at(self.text@, k) && #[trigger] line_at(self.text@, k) + bytes(lines@[k]@) < usize::MAX,
        wrapped_all(result@, ends, *self, k as int, width as int, wrap, over), k < lines@.len() ==> line_start == line_at(self.text@, k as int),
//@ loop_start 1
    let ghost kk = k as int; let ghost had = result@; let ghost t = lines@[kk]@; let ghost mut shown: Seq<Strip> = seq![];
    proof { assert(texts(lines@)[kk] == t); assert(line_at(self.text@, kk) + bytes(lines@[kk]@) < usize::MAX); assert(line_at(self.text@, kk + 1) == line_at(self.text@, kk) + bytes(t) + 1); }
//@ loop_end 1
    proof { axiom_new(); let more = result@.subrange(had.len() as int, result@.len() as int); reveal(wrapped_line); reveal(grown); assert(result@ =~= had + more); if wrap || over is Fold { if t.len() > 0 { assert(strips(more) == shown); } else { lemma_void(t); assert(strips(more) =~= seq![more[0].strip]); assert(holds(more[0].strip, t, 0, 0)) by { assert(t.subrange(0, 0) =~= seq![]); } reveal(folded_at); assert(folded_at(strips(more), t, seq![0, 0])); assert(seq![0int, 0].last() == t.len()); } }  else { assert(more.len() == 1); } assert(wrapped_line(more, t, line_at(self.text@, kk), *self, width as int, wrap, over)); lemma_wrapped_more(had, ends, *self, kk, width as int, wrap, over, more); ends = ends.push(result@.len() as int); }
//@ before_loop 2
    proof { shown = parts@; reveal(grown); assert(had.subrange(0, had.len() as int) =~= had); }
//@ loop 2
    invariant wrap == (text_wrap is Wrap), over == overflow, shown == parts@, parts@.len() > 0, last_index == parts@.len() - 1, grown(had, result@, parts@, index as int),
//@ before_loop 3
    proof { shown = wrapped@; reveal(grown); assert(had.subrange(0, had.len() as int) =~= had); if words_of(t).len() == 0 { axiom_new(); }  }
//@ loop 3
    invariant shown == wrapped@, wrapped@.len() > 0, last_index == wrapped@.len() - 1, grown(had, result@, wrapped@, index as int), fit(wrapped@, width as int), width >= 2,
//@ loop_start 2
    let ghost was = result@;
//@ loop_end 2
    proof { lemma_grown(had, was, parts@, index as int, result@.last()); assert(result@ =~= was.push(result@.last())); }
//@ loop_start 3
    let ghost was = result@;
//@ loop_end 3
    proof { lemma_grown(had, was, wrapped@, index as int, result@.last()); assert(result@ =~= was.push(result@.last())); }
//@ after_loop 2
    proof { lemma_grown_all(had, result@, parts@); }
//@ after_loop 3
    proof { lemma_grown_all(had, result@, wrapped@); }
//@ after_loop 1
    let ghost last = result@; proof { assert(lines@.len() == lines_of(self.text@).len()) by { assert(texts(lines@).len() == lines@.len()); } assert(result@.len() > 0); assert(wrapped_all(result@, ends, *self, lines_of(self.text@).len() as int, width as int, text_wrap is Wrap, overflow)); }
//@ end
}
/// the first n strips of a line were added, the last strip of the line marked
#[verifier::opaque]
spec fn grown(had: Seq<WrappedLine>, now: Seq<WrappedLine>, v: Seq<Strip>, n: int) -> bool {
    now.len() == had.len() + n && now.subrange(0, had.len() as int) == had && forall|j: int| 0 <= j < n ==> (#[trigger] now[had.len() + j]).strip == v[j] && now[had.len() + j].line_end == (j == v.len() - 1)
}
proof fn lemma_grown(had: Seq<WrappedLine>, now: Seq<WrappedLine>, v: Seq<Strip>, n: int, l: WrappedLine)
    requires grown(had, now, v, n), 0 <= n < v.len(), l.strip == v[n], l.line_end == (n == v.len() - 1), ensures grown(had, now.push(l), v, n + 1)
{ reveal(grown); assert(now.push(l).subrange(0, had.len() as int) =~= had); }
pub open spec fn marked(v: Seq<WrappedLine>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).line_end == (i == v.len() - 1) }
proof fn lemma_grown_all(had: Seq<WrappedLine>, now: Seq<WrappedLine>, v: Seq<Strip>)
    requires grown(had, now, v, v.len() as int), ensures now == had + now.subrange(had.len() as int, now.len() as int), strips(now.subrange(had.len() as int, now.len() as int)) == v, marked(now.subrange(had.len() as int, now.len() as int))
{ reveal(grown); let m = now.subrange(had.len() as int, now.len() as int);
  assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).line_end == (i == m.len() - 1) && m[i].strip == v[i] by { assert(m[i] == now[had.len() + i]); }
  assert(now =~= had + m); assert(strips(m) =~= v); }
proof fn lemma_void(t: Seq<char>) requires t.len() == 0, ensures words_of(t).len() == 0
{ axiom_split(t); reveal(split_ok); if words_of(t).len() > 0 { assert(words_of(t)[0].len() > 0); } }
/// the same fact without a call
pub axiom fn axiom_split(t: Seq<char>) ensures split_ok(t);
fn one_line(l: WrappedLine) -> (r: Vec<WrappedLine>) ensures r@ == seq![l] { let mut v = Vec::new(); v.push(l); proof { assert(v@ =~= seq![l]); } v }
}
