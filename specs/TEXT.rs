verus! {
// ---------------------------------------------------------------- texts and bytes
pub open spec fn len8(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// the number of bytes of the first k characters
pub open spec fn off(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(s, k - 1) + len8(s[k - 1]) } }
pub open spec fn bytes(s: Seq<char>) -> int { off(s, s.len() as int) }
/// b is between two characters
pub open spec fn edge(s: Seq<char>, b: int) -> bool { exists|k: int| #![trigger off(s, k)] 0 <= k <= s.len() && off(s, k) == b }
pub open spec fn nth(s: Seq<char>, b: int) -> int { choose|k: int| #![trigger off(s, k)] 0 <= k <= s.len() && off(s, k) == b }
pub open spec fn rest(s: Seq<char>, b: int) -> Seq<char> { s.subrange(nth(s, b), s.len() as int) }
proof fn lemma_off(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), ensures 0 <= off(s, a) <= off(s, b), a < b ==> off(s, a) < off(s, b), decreases b - a, b,
{ if a < b { lemma_off(s, a, b - 1); } else if a > 0 { lemma_off(s, a - 1, a - 1); } }
proof fn lemma_nth(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), ensures nth(s, off(s, k)) == k, edge(s, off(s, k)), 0 <= off(s, k) <= bytes(s), k < s.len() ==> off(s, k + 1) == off(s, k) + len8(s[k]) && off(s, k) < bytes(s),
{
    lemma_off(s, 0, k); lemma_off(s, k, s.len() as int);
    let n = nth(s, off(s, k));
    assert(0 <= n <= s.len() && off(s, n) == off(s, k));
    if n < k { lemma_off(s, n, k); } else if n > k { lemma_off(s, k, n); }
}
proof fn lemma_off_same(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|j: int| 0 <= j < k ==> s[j] == t[j], ensures off(s, k) == off(t, k), decreases k,
{ if k > 0 { lemma_off_same(s, t, k - 1); } }
proof fn lemma_bytes_add(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= t.len(), ensures off(s + t, s.len() + k) == bytes(s) + off(t, k), decreases k,
{ if k > 0 { lemma_bytes_add(s, t, k - 1); assert((s + t)[s.len() + k - 1] == t[k - 1]); } else { lemma_off_same(s, s + t, s.len() as int); } }
proof fn lemma_edge_add(s: Seq<char>, t: Seq<char>, b: int)
    requires edge(s, b), ensures edge(s + t, b),
{ let k = nth(s, b); lemma_off_same(s, s + t, k); assert(off(s + t, k) == b); }
#[verifier::external_body]
fn utf8_len(c: char) -> (r: usize) ensures r == len8(c) { c.len_utf8() }
#[verifier::external_body]
fn byte_len(s: &str) -> (r: usize) ensures r == bytes(s@) { s.len() }
#[verifier::external_body]
fn slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires edge(s@, a as int), edge(s@, b as int), a <= b,
    ensures r@ == s@.subrange(nth(s@, a as int), nth(s@, b as int)), nth(s@, a as int) <= nth(s@, b as int),
{ &s[a..b] }
#[verifier::external_body]
fn tail<'a>(s: &'a str, a: usize) -> (r: &'a str) requires edge(s@, a as int), ensures r@ == rest(s@, a as int) { &s[a..] }
#[verifier::external_body]
fn first_char(s: &str) -> (r: Option<char>) ensures r == if s@.len() == 0 { None } else { Some(s@[0]) } { s.chars().next() }
#[verifier::external_body]
fn add_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@, bytes(final(s)@) <= usize::MAX { s.push_str(t) }
#[verifier::external_body]
fn add_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c), bytes(final(s)@) <= usize::MAX { s.push(c) }
}
