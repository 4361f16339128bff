use vstd::prelude::*;

verus! {
global size_of usize == 8;
#[verifier::external_body] pub struct Score { x: f32 }
impl Clone for Score { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Score {}
pub uninterp spec fn pos(s: Score) -> bool;
#[verifier::external_body] fn zero() -> (r: Score) ensures !pos(r) { unimplemented!() }
#[verifier::external_body] fn above(a: Score, b: Score) -> (r: bool) ensures pos(a) && !pos(b) ==> r, r && pos(b) ==> pos(a) { unimplemented!() }
#[verifier::external_body] fn not_positive(a: Score) -> (r: bool) ensures r == !pos(a) { unimplemented!() }
#[verifier::external_body] fn scaled(a: Score, whole: bool) -> (r: Score) ensures pos(r) == pos(a) { unimplemented!() }
/// the first character of the lower case of a character
pub uninterp spec fn low(c: char) -> char;
pub open spec fn lowered(t: Seq<char>) -> Seq<char> { t.map_values(|c: char| low(c)) }
/// the number of characters before a byte
pub uninterp spec fn before(t: Seq<char>, byte: int) -> int;
#[verifier::external_body] fn str_empty(t: &str) -> (r: bool) ensures r == (t@.len() == 0) { t.is_empty() }
#[verifier::external_body] fn text_empty(t: &String) -> (r: bool) ensures r == (t@.len() == 0) { t.is_empty() }
#[verifier::external_body] fn owned(t: &str) -> (r: String) ensures r@ == t@ { t.to_string() }
#[verifier::external_body] fn lower_chars(t: &str) -> (r: String) ensures r@ == lowered(t@) { unimplemented!() }
#[verifier::external_body] fn char_list(t: &String) -> (r: Vec<char>) ensures r@ == t@ { t.chars().collect() }
#[verifier::external_body] fn chars_of(t: &str) -> (r: Vec<char>) ensures r@ == t@ { t.chars().collect() }
#[verifier::external_body] fn count(t: &String) -> (r: usize) ensures r == t@.len() { t.chars().count() }
pub open spec fn at_place(q: Seq<char>, c: Seq<char>, k: int) -> bool { 0 <= k && k + q.len() <= c.len() && c.subrange(k, k + q.len()) =~= q }
#[verifier::external_body] fn find(c: &String, q: &String) -> (r: Option<usize>)
    ensures match r { Some(b) => at_place(q@, c@, before(c@, b as int)), None => forall|k: int| !#[trigger] at_place(q@, c@, k) } { unimplemented!() }
#[verifier::external_body] fn byte_to_char_index(s: &String, byte_index: usize) -> (r: usize) ensures r == before(s@, byte_index as int) { unimplemented!() }
fn range_vec(a: usize, b: usize) -> (r: Vec<usize>) requires a <= b ensures r@ == Seq::new((b - a) as nat, |i: int| (a + i) as usize)
{
    let mut v = Vec::new();
    for i in a..b invariant v@.len() == i - a, forall|k: int| 0 <= k < i - a ==> v@[k] == a + k { v.push(i); }
    proof { assert(v@ =~= Seq::new((b - a) as nat, |i: int| (a + i) as usize)); }
    v
}
fn clone_list(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@
{
    let mut w = Vec::new();
    for i in 0..v.len() invariant w@ == v@.take(i as int) { w.push(v[i]); proof { assert(v@.take(i + 1) =~= v@.take(i as int).push(v@[i as int])); } }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    w
}
fn all_below(v: &Vec<usize>, x: usize) -> (r: bool) ensures r == (v@.len() == 0 || v@.last() < x) { v.len() == 0 || v[v.len() - 1] < x }

// ---------------------------------------------------------------- characters in order
/// the characters of q stand in c at the ascending places e
pub open spec fn embeds(q: Seq<char>, c: Seq<char>, e: Seq<usize>) -> bool {
    e.len() == q.len() && (forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]) < c.len() && c[e[k] as int] == q[k]) && forall|j: int, k: int| 0 <= j < k < e.len() ==> e[j] < e[k]
}
pub open spec fn in_order(q: Seq<char>, c: Seq<char>) -> bool { q.len() > 0 && exists|e: Seq<usize>| embeds(q, c, e) }
pub open spec fn folded(case: bool, t: Seq<char>) -> Seq<char> { if case { t } else { lowered(t) } }
pub open spec fn one_piece(e: Seq<usize>) -> bool { forall|k: int| 0 <= k < e.len() ==> #[trigger] e[k] == e[0] + k }
pub open spec fn answer(case: bool, query: Seq<char>, candidate: Seq<char>, s: Score, e: Seq<usize>) -> bool {
    let q = folded(case, query); let c = folded(case, candidate);
    if in_order(q, c) { pos(s) && embeds(q, c, e) && ((exists|k: int| at_place(q, c, k)) ==> one_piece(e)) } else { !pos(s) && e.len() == 0 }
}
/// positions that hold the right letters, ascending
pub open spec fn row_of(p: Seq<usize>, c: Seq<char>, letter: char) -> bool {
    (forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]) < c.len() && c[p[k] as int] == letter) && forall|j: int, k: int| 0 <= j < k < p.len() ==> p[j] < p[k]
}
/// in every list the first place lies behind the first place of the one before
pub open spec fn chain(all: Seq<Vec<usize>>, from: int) -> bool {
    (forall|k: int| from <= k < all.len() ==> (#[trigger] all[k])@.len() > 0) && forall|k: int| from < k < all.len() ==> all[k - 1]@[0] < #[trigger] all[k]@[0]
}
/// no way to place the first n characters of q ends before `position`
pub open spec fn earliest(q: Seq<char>, c: Seq<char>, n: int, position: int) -> bool { forall|e: Seq<usize>| n > 0 && #[trigger] embeds(q.take(n), c, e) ==> e.last() + 1 >= position }
proof fn lemma_shorter(q: Seq<char>, c: Seq<char>, e: Seq<usize>, n: int) requires embeds(q, c, e), 0 <= n <= q.len() ensures embeds(q.take(n), c, e.take(n)) {}
proof fn lemma_next(q: Seq<char>, c: Seq<char>, n: int, position: int, first: int)
    requires 0 <= n < q.len(), earliest(q, c, n, position), n == 0 ==> position == 0, 0 <= position <= first, forall|i: int| position <= i < first && i < c.len() ==> c[i] != q[n],
    ensures earliest(q, c, n + 1, first + 1),
{
    assert forall|e: Seq<usize>| #[trigger] embeds(q.take(n + 1), c, e) implies e.last() + 1 >= first + 1 by {
        lemma_shorter(q.take(n + 1), c, e, n); assert(q.take(n + 1).take(n) =~= q.take(n));
        let l = e[n]; assert(c[l as int] == q.take(n + 1)[n]);
        if n > 0 { assert(e.take(n).last() == e[n - 1]); assert(e[n - 1] < e[n]); }
    }
}
proof fn lemma_none(q: Seq<char>, c: Seq<char>, n: int, position: int)
    requires 0 <= n < q.len(), earliest(q, c, n, position), n == 0 ==> position == 0, forall|i: int| position <= i < c.len() ==> c[i] != q[n],
    ensures !in_order(q, c),
{
    assert forall|e: Seq<usize>| !embeds(q, c, e) by { if embeds(q, c, e) {
        lemma_shorter(q, c, e, n); let l = e[n]; assert(c[l as int] == q[n]);
        if n > 0 { assert(e.take(n).last() == e[n - 1]); assert(e[n - 1] < e[n]); }
    } }
}
proof fn lemma_place(q: Seq<char>, c: Seq<char>, k: int, e: Seq<usize>)
    requires at_place(q, c, k), q.len() > 0, c.len() <= usize::MAX, e == Seq::new(q.len(), |i: int| (k + i) as usize),
    ensures embeds(q, c, e), in_order(q, c), one_piece(e),
{
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]) < c.len() && c[e[i] as int] == q[i] by { assert(c.subrange(k, k + q.len())[i] == q[i]); }
}

// ---------------------------------------------------------------- fuzzy.rs
pub
//@ extract crates/textual/src/fuzzy.rs struct FuzzySearch
//@ end
//@ extract crates/textual/src/fuzzy.rs fn FuzzySearch::collect_offsets
//@ sub for &pos in &all_positions\[index\] \{ ==> for pk in 0..all_positions[index].len() { let pos = all_positions[index][pk];
//@ sub offsets\.last\(\)\.map_or\(true, \|last\| pos > \*last\) ==> all_below(offsets, pos)
//@ sub offsets\.clone\(\) ==> clone_list(offsets)
//@ nloops 1
//@ contract
    requires index < query_len, query_len == all_positions@.len(), old(offsets)@.len() == index,
        forall|j: int, k: int| 0 <= j < k < index ==> old(offsets)@[j] < old(offsets)@[k],
        forall|j: int| 0 <= j < index ==> all_positions@[j]@.contains(#[trigger] old(offsets)@[j]),
    ensures final(offsets)@ == old(offsets)@, final(out)@.len() >= old(out)@.len(), final(out)@.take(old(out)@.len() as int) =~= old(out)@,
        forall|o: int| old(out)@.len() <= o < final(out)@.len() ==> picked(all_positions@, (#[trigger] final(out)@[o])@),
        chain(all_positions@, index as int) && (index > 0 ==> old(offsets)@.last() < all_positions@[index as int]@[0]) ==> final(out)@.len() > old(out)@.len(),
    decreases query_len - index,
//@ loop 1
    invariant index < query_len, query_len == all_positions@.len(), offsets@ == old(offsets)@, offsets@.len() == index,
        forall|j: int, k: int| 0 <= j < k < index ==> offsets@[j] < offsets@[k],
        forall|j: int| 0 <= j < index ==> all_positions@[j]@.contains(#[trigger] offsets@[j]),
        out@.len() >= old(out)@.len(), out@.take(old(out)@.len() as int) =~= old(out)@,
        forall|o: int| old(out)@.len() <= o < out@.len() ==> picked(all_positions@, (#[trigger] out@[o])@),
        pk > 0 && chain(all_positions@, index as int) && (index > 0 ==> old(offsets)@.last() < all_positions@[index as int]@[0]) ==> out@.len() > old(out)@.len(),
//@ loop_start 1
    let ghost was = out@; let ghost had = offsets@;
//@ loop_end 1
    proof {
        assert(offsets@ =~= had); assert(out@.take(was.len() as int) =~= was);
        assert forall|o: int| old(out)@.len() <= o < out@.len() implies picked(all_positions@, (#[trigger] out@[o])@) by { if o < was.len() { assert(out@.take(was.len() as int)[o] == was[o]); } }
    }
//@ end
/// one place from every list, ascending
pub open spec fn picked(all: Seq<Vec<usize>>, e: Seq<usize>) -> bool {
    e.len() == all.len() && (forall|j: int| 0 <= j < e.len() ==> all[j]@.contains(#[trigger] e[j])) && forall|j: int, k: int| 0 <= j < k < e.len() ==> e[j] < e[k]
}
impl FuzzySearch {
/// the score of some places (floating point): positive
#[verifier::external_body] fn score(&self, candidate: &String, positions: &Vec<usize>) -> (r: Score) ensures positions@.len() > 0 ==> pos(r) { unimplemented!() }
//@ extract crates/textual/src/fuzzy.rs fn FuzzySearch::match_candidate
//@ ret r
//@ sub SIG:f32 ==> Score
//@ sub fn collect_offsets\(.*?\n        \}\n ==>
//@ sub (query|candidate)\.is_empty\(\) \|\| candidate\.is_empty\(\) ==> str_empty(query) || str_empty(candidate)
//@ sub query\.to_string\(\) ==> owned(query)
//@ sub candidate\.to_string\(\) ==> owned(candidate)
//@ sub candidate\.find\(&query\) ==> find(&candidate, &query)
//@ sub query\.chars\(\)\.count\(\) ==> count(&query)
//@ sub \(start\.\.start \+ query_len\)\.collect\(\) ==> { proof { lemma_place(q0, c0, start as int, Seq::new(q0.len(), |i: int| (start + i) as usize)); } range_vec(start, start + query_len) }
//@ sub self\.score\(&candidate, &offsets\) \* if candidate == query \{ 2\.0 \} else \{ 1\.5 \} ==> scaled(self.score(&candidate, &offsets), true)
//@ sub (candidate|query)\.chars\(\)\.collect\(\) ==> char_list(&\1)
//@ sub for \(offset, letter\) in query_chars\.iter\(\)\.enumerate\(\) \{ ==> for offset in 0..query_chars.len() { let letter = &query_chars[offset];
//@ sub for offsets in possible_offsets \{ ==> for ok in 0..possible_offsets.len() { let offsets = clone_list(&possible_offsets[ok]);
//@ sub score > best_score ==> above(score, best_score)
//@ sub \b0\.0\b ==> zero()
//@ sub let mut positions = Vec::new\(\); ==> let mut positions: Vec<usize> = Vec::new();
//@ nloops 3
//@ contract
    requires query@.len() <= usize::MAX / 2, candidate@.len() <= usize::MAX / 2,
    ensures answer(self.case_sensitive, query@, candidate@, r.0, r.1@),
//@ start
    let ghost q0 = folded(self.case_sensitive, query@); let ghost c0 = folded(self.case_sensitive, candidate@);
    proof { if c0.len() == 0 && q0.len() > 0 { assert forall|e: Seq<usize>| !embeds(q0, c0, e) by { if embeds(q0, c0, e) { assert(e[0] < c0.len()); } } } }
//@ before_loop 1
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant candidate_chars@ == c0, query_chars@ == q0, candidate_len == c0.len(), letter_positions@.len() == offset, position <= candidate_len, candidate_len < usize::MAX,
        offset == 0 ==> position == 0, earliest(q0, c0, offset as int, position as int),
        forall|k: int| 0 <= k < offset ==> (#[trigger] letter_positions@[k])@.len() > 0 && row_of(letter_positions@[k]@, c0, q0[k]),
        chain(letter_positions@, 0), offset > 0 ==> position == letter_positions@[offset - 1]@[0] + 1,
//@ loop 2
    invariant_except_break positions@.len() > 0 ==> positions@.last() < index,
    invariant candidate_chars@ == c0, candidate_len == c0.len(), candidate_len < usize::MAX, position <= index <= candidate_len, offset < q0.len(), *letter == q0[offset as int],
        row_of(positions@, c0, q0[offset as int]), positions@.len() > 0 ==> position <= positions@[0],
        forall|i: int| position <= i < (if positions@.len() > 0 { positions@[0] as int } else { index as int }) ==> c0[i] != q0[offset as int],
    ensures positions@.len() == 0 ==> index >= candidate_len,
    decreases candidate_len - index,
//@ after_loop 2
    proof { if positions@.len() == 0 { lemma_none(q0, c0, offset as int, position as int); } else { lemma_next(q0, c0, offset as int, position as int, positions@[0] as int); } }
//@ before_loop 3
    proof {
        assert forall|e: Seq<usize>| picked(letter_positions@, e) implies #[trigger] embeds(q0, c0, e) by {
            assert forall|k: int| 0 <= k < e.len() implies (#[trigger] e[k]) < c0.len() && c0[e[k] as int] == q0[k] by { assert(row_of(letter_positions@[k]@, c0, q0[k])); assert(letter_positions@[k]@.contains(e[k])); }
        }
        assert(picked(letter_positions@, possible_offsets@[0]@));
        assert(embeds(q0, c0, possible_offsets@[0]@));
        assert(in_order(q0, c0));
    }
//@ loop 3
    invariant forall|o: int| 0 <= o < possible_offsets@.len() ==> embeds(q0, c0, (#[trigger] possible_offsets@[o])@), q0.len() > 0,
        ok > 0 ==> pos(best_score), pos(best_score) ==> embeds(q0, c0, best_offsets@), !pos(best_score) ==> best_offsets@.len() == 0,
//@ end
}
/// the characters of a line of markup that shows c as it is
pub open spec fn escaped(c: char) -> Seq<char> { if c == '[' || c == ']' || c == '\\' { seq!['\\', c] } else { seq![c] } }
pub open spec fn all_escaped(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 { seq![] } else { all_escaped(t.drop_last()) + escaped(t.last()) } }
pub uninterp spec fn blank(c: char) -> bool;
/// a character, in the style when its place was matched
pub open spec fn shown(c: char, hit: bool, style: Seq<char>) -> Seq<char> { if hit && !blank(c) && style.len() > 0 { seq!['['] + style + seq![']'] + escaped(c) + seq!['[', '/', ']'] } else { escaped(c) } }
pub open spec fn all_shown(t: Seq<char>, at: Seq<usize>, style: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { all_shown(t, at, style, n - 1) + shown(t[n - 1], at.contains((n - 1) as usize), style) } }
#[verifier::external_body] fn new_text() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] fn put(t: &mut String, c: char) ensures final(t)@ == old(t)@.push(c) { t.push(c) }
#[verifier::external_body] fn put_all(t: &mut String, s: &String) ensures final(t)@ == old(t)@ + s@ { t.push_str(s) }
#[verifier::external_body] fn put_closing(t: &mut String) ensures final(t)@ == old(t)@ + seq!['[', '/', ']'] { t.push_str("[/]") }
#[verifier::external_body] fn is_blank(c: char) -> (r: bool) ensures r == blank(c) { c.is_whitespace() }
fn has(v: &Vec<usize>, x: usize) -> (r: bool) ensures r == v@.contains(x)
{
    for i in 0..v.len() invariant forall|k: int| 0 <= k < i ==> v@[k] != x { if v[i] == x { return true; } }
    false
}
//@ extract crates/textual/src/fuzzy.rs fn push_escaped_char
//@ sub out\.push\((.*?)\) ==> put(out, \1)
//@ contract
    ensures final(out)@ =~= old(out)@ + escaped(ch),
//@ end
//@ extract crates/textual/src/fuzzy.rs fn escape_markup
//@ ret r
//@ sub String::with_capacity\(input\.len\(\)\) ==> new_text()
//@ sub for ch in input\.chars\(\) \{ ==> let in_chars = chars_of(input); for ck in 0..in_chars.len() { let ch = in_chars[ck];
//@ nloops 1
//@ contract
    ensures r@ =~= all_escaped(input@),
//@ loop 1
    invariant in_chars@ == input@, out@ =~= all_escaped(input@.take(ck as int)),
//@ loop_end 1
    proof { assert(input@.take(ck + 1).drop_last() =~= input@.take(ck as int)); }
//@ after_loop 1
    proof { assert(input@.take(input@.len() as int) =~= input@); }
//@ end
pub
//@ extract crates/textual/src/fuzzy.rs struct Matcher
//@ end
impl Matcher {
//@ extract crates/textual/src/fuzzy.rs fn Matcher::match_score
//@ ret r
//@ sub SIG:f32 ==> Score
//@ sub match_candidate\(&self\.query, ==> match_candidate(self.query.as_str(),
//@ contract
    requires self.query@.len() <= usize::MAX / 2, candidate@.len() <= usize::MAX / 2,
    ensures pos(r) == in_order(folded(self.fuzzy.case_sensitive, self.query@), folded(self.fuzzy.case_sensitive, candidate@)),
//@ end
//@ extract crates/textual/src/fuzzy.rs fn Matcher::highlight
//@ ret r
//@ sub match_candidate\(&self\.query, ==> match_candidate(self.query.as_str(),
//@ sub score <= 0\.0 ==> not_positive(score)
//@ sub let offset_set: HashSet<usize> = offsets\.into_iter\(\)\.collect\(\); ==> let offset_set = offsets;
//@ sub String::with_capacity\(candidate\.len\(\)\) ==> new_text()
//@ sub for \(index, ch\) in candidate\.chars\(\)\.enumerate\(\) \{ ==> let in_chars = chars_of(candidate); for index in 0..in_chars.len() { let ch = in_chars[index];
//@ sub String::new\(\) ==> new_text()
//@ sub offset_set\.contains\(&index\) ==> has(&offset_set, index)
//@ sub ch\.is_whitespace\(\) ==> is_blank(ch)
//@ sub self\.match_style\.is_empty\(\) ==> text_empty(&self.match_style)
//@ sub out\.push\((.*?)\) ==> put(&mut out, \1)
//@ sub out\.push_str\("\[/\]"\) ==> put_closing(&mut out)
//@ sub out\.push_str\((.*?)\) ==> put_all(&mut out, \1)
//@ nloops 1
//@ contract
    requires self.query@.len() <= usize::MAX / 2, candidate@.len() <= usize::MAX / 2,
    ensures ({
        let case = self.fuzzy.case_sensitive;
        if in_order(folded(case, self.query@), folded(case, candidate@)) {
            exists|e: Seq<usize>| embeds(folded(case, self.query@), folded(case, candidate@), e) && #[trigger] all_shown(candidate@, e, self.match_style@, candidate@.len() as int) == r@
        } else { r@ == all_escaped(candidate@) }
    }),
//@ loop 1
    invariant in_chars@ == candidate@, out@ =~= all_shown(candidate@, offset_set@, self.match_style@, index as int),
//@ loop_end 1
    proof { assert(out@ =~= all_shown(candidate@, offset_set@, self.match_style@, index as int) + shown(ch, offset_set@.contains(index), self.match_style@)); }
//@ end
}
}
fn main() {}
