use vstd::prelude::*;

verus! {
//@ include TEXT.rs
// ---------------------------------------------------------------- what the standard library reads
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
/// str::parse::<u8>
pub uninterp spec fn byte(s: Seq<char>) -> Option<u8>;
pub uninterp spec fn known(s: Seq<char>) -> bool;
/// the texts between commas, with the space around them taken off
pub uninterp spec fn parts_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trim(s@) { s.trim() }
#[verifier::external_body] fn lowered(s: &str) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
#[verifier::external_body] fn no_chars(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] fn begins(s: &str, t: &str) -> (r: bool) ensures r == starts(s@, t@) { s.starts_with(t) }
#[verifier::external_body] fn begins_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body] fn ends_in(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body] fn count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] fn char_at(s: &str, i: usize) -> (r: char) requires i < s@.len(), ensures r == s@[i as int] { s.chars().nth(i).unwrap() }
#[verifier::external_body] fn split_parts<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == parts_of(s@) { s.split(',').map(|s| s.trim()).collect() }
#[verifier::external_body] fn read_byte(s: &str) -> (r: Result<u8, ColorParseError>) ensures r is Ok == byte(s@) is Some, r is Ok ==> r->Ok_0 == byte(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub struct ColorParseError { x: u8 }
#[verifier::external_body] fn bad() -> ColorParseError { unimplemented!() }
pub
//@ extract crates/rich/src/color.rs enum Color
//@ end

// ---------------------------------------------------------------- what a colour's text says
pub enum Look { Rgb(u8, u8, u8), Name(Seq<char>) }
pub open spec fn look(c: Color) -> Look { match c { Color::Rgb(r, g, b) => Look::Rgb(r, g, b), Color::Named(n) => Look::Name(n@) } }
pub open spec fn says(r: Result<Color, ColorParseError>, l: Option<Look>) -> bool { match r { Ok(c) => l == Some(look(c)), Err(_) => l is None } }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.subrange(0, t.len() as int) == t }
pub open spec fn hex_value(c: char) -> Option<u8> {
    if '0' <= c <= '9' { Some((c as u32 - '0' as u32) as u8) } else if 'a' <= c <= 'f' { Some((c as u32 - 'a' as u32 + 10) as u8) }
    else if 'A' <= c <= 'F' { Some((c as u32 - 'A' as u32 + 10) as u8) } else { None }
}
/// two digits; a single digit of a short form stands for two
pub open spec fn hex_two(a: char, b: char) -> Option<u8> {
    match (hex_value(a), hex_value(b)) { (Some(x), Some(y)) => Some((x * 16 + y) as u8), _ => None }
}
pub open spec fn hex_colour(h: Seq<char>) -> Option<Look> {
    let k = if h.len() == 3 { 1int } else { 2 };
    if h.len() != 3 && h.len() != 6 { None } else {
        match (hex_two(h[0], h[k - 1]), hex_two(h[k], h[2 * k - 1]), hex_two(h[2 * k], h[3 * k - 1])) { (Some(r), Some(g), Some(b)) => Some(Look::Rgb(r, g, b)), _ => None }
    }
}
pub open spec fn rgb_colour(s: Seq<char>) -> Option<Look> {
    let p = parts_of(s);
    if p.len() != 3 { None } else { match (byte(p[0]), byte(p[1]), byte(p[2])) { (Some(r), Some(g), Some(b)) => Some(Look::Rgb(r, g, b)), _ => None } }
}
pub open spec fn name_colour(s: Seq<char>) -> Option<Look> { if known(lower(s)) { Some(Look::Name(lower(s))) } else { None } }
pub open spec fn colour(text: Seq<char>) -> Option<Look> {
    let t = trim(text);
    if t.len() == 0 { None }
    else if t[0] == '#' { hex_colour(t.skip(1)) }
    else if starts(t, "rgb("@) && t.last() == ')' { rgb_colour(t.subrange(4, t.len() - 1)) }
    else { name_colour(t) }
}
impl Color {
#[verifier::external_body] fn is_known_color(s: &str) -> (r: bool) ensures r == known(s@) { unimplemented!() }
//@ extract crates/rich/src/color.rs fn Color::parse_hex_digit
//@ ret r
//@ sub b'0' ==> 48u8
//@ sub b'a' ==> 97u8
//@ sub b'A' ==> 65u8
//@ sub ColorParseError::InvalidHex\(format!\(.*?\)\) ==> bad()
//@ contract
    ensures r is Ok == hex_value(c) is Some, r is Ok ==> r->Ok_0 == hex_value(c)->Some_0 && r->Ok_0 < 16,
//@ end
//@ extract crates/rich/src/color.rs fn Color::parse_hex_pair
//@ ret r
//@ contract
    ensures r is Ok == hex_two(c1, c2) is Some, r is Ok ==> r->Ok_0 == hex_two(c1, c2)->Some_0,
//@ end
//@ extract crates/rich/src/color.rs fn Color::parse_hex
//@ ret r
//@ sub? hex\.chars\(\)\.count\(\) ==> count(hex)
//@ sub? hex\.len\(\) ==> byte_len(hex)
//@ sub hex\.chars\(\)\.nth\((\d)\)\.unwrap\(\) ==> char_at(hex, \1)
//@ sub ColorParseError::InvalidHex\(format!\(.*?\)\) ==> bad()
//@ contract
    ensures says(r, hex_colour(hex@)),
//@ end
//@ extract crates/rich/src/color.rs fn Color::parse_rgb_func
//@ ret r
//@ sub input\.split\(','\)\.map\(\|s\| s\.trim\(\)\)\.collect\(\) ==> split_parts(input)
//@ sub parts\[(\d)\]\s*\.parse::<u8>\(\)\s*\.map_err\(\|_\| ColorParseError::InvalidRgb\(format!\([^;]*?\)\)\)\? ==> read_byte(parts[\1])?
//@ sub ColorParseError::InvalidRgb\(format!\(.*?\)\) ==> bad()
//@ contract
    ensures says(r, rgb_colour(input@)),
//@ end
//@ extract crates/rich/src/color.rs fn Color::parse_named
//@ ret r
//@ sub name\.to_lowercase\(\) ==> lowered(name)
//@ sub is_known_color\(&name_lower\) ==> is_known_color(name_lower.as_str())
//@ sub ColorParseError::UnknownName\([^()]*\(\)\) ==> bad()
//@ contract
    ensures says(r, name_colour(name@)),
//@ end
//@ extract crates/rich/src/color.rs fn Color::parse
//@ ret r
//@ sub SIG:input: &str ==> given: &str
//@ sub input\.trim\(\) ==> trimmed(given)
//@ sub input\.is_empty\(\) ==> no_chars(input)
//@ sub ColorParseError::UnknownName\([^()]*\(\)\) ==> bad()
//@ sub input\.starts_with\('#'\) ==> begins_with(input, '#')
//@ sub &input\[1\.\.\] ==> { proof { lemma_nth(input@, 1); assert(rest(input@, 1) =~= input@.skip(1)); } tail(input, 1) }
//@ sub input\.starts_with\("rgb\("\) ==> begins(input, "rgb(")
//@ sub input\.ends_with\('\)'\) ==> ends_in(input, ')')
//@ sub &input\[4\.\.input\.len\(\) - 1\] ==> { proof { lemma_inside(input@); } slice(input, 4, byte_len(input) - 1) }
//@ contract
    ensures says(r, colour(given@)),
//@ start
    proof { let t = trim(given@); if t.len() > 0 { lemma_nth(t, 0); assert(off(t, 0) == 0); } }
//@ end
}
/// what is between rgb( and the last ) is a piece of the text
proof fn lemma_inside(s: Seq<char>)
    requires starts(s, "rgb("@), s.last() == ')',
    ensures edge(s, 4), nth(s, 4) == 4, edge(s, bytes(s) - 1), nth(s, bytes(s) - 1) == s.len() - 1, 4 <= bytes(s) - 1,
{
    reveal_strlit("rgb(");
    let t = s.subrange(0, 4);
    assert(s[0] == t[0] && s[1] == t[1] && s[2] == t[2] && s[3] == t[3]);
    let n = s.len() as int;
    assert(n > 4) by { if n == 4 { assert(s.last() == s[3]); } };
    lemma_nth(s, 0); lemma_nth(s, 1); lemma_nth(s, 2); lemma_nth(s, 3); lemma_nth(s, 4); lemma_nth(s, n - 1); lemma_nth(s, n);
    assert(off(s, 0) == 0);
    lemma_off(s, 4, n - 1);
}
}
fn main() {}
