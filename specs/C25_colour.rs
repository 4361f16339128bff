use vstd::prelude::*;

verus! {
//@ include TEXT.rs
// ---------------------------------------------------------------- what the standard library reads
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ltrim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn strip_percent(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn is_blank(c: char) -> bool;
/// str::parse: a whole number, a decimal
pub uninterp spec fn whole(s: Seq<char>) -> Option<i32>;
pub uninterp spec fn real(s: Seq<char>) -> Option<f32>;
/// v / 255, v / 100, whole turns taken off
pub uninterp spec fn of_255(v: u8) -> f32;
pub uninterp spec fn of_100(v: f32) -> f32;
pub uninterp spec fn turned(v: f32) -> f32;
pub uninterp spec fn zero() -> f32;
pub uninterp spec fn one() -> f32;
pub uninterp spec fn hsl(h: f32, s: f32, l: f32) -> (u8, u8, u8);
pub uninterp spec fn named(s: Seq<char>) -> Option<RgbaColor>;
/// the texts between commas, with the space around them taken off
pub uninterp spec fn parts_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trim(s@) { s.trim() }
#[verifier::external_body] fn left_trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == ltrim(s@) { s.trim_start() }
#[verifier::external_body] fn lowered(s: &str) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
#[verifier::external_body] fn without_percent<'a>(s: &'a str) -> (r: &'a str) ensures r@ == strip_percent(s@) { s.trim_end_matches('%') }
#[verifier::external_body] fn blank(c: char) -> (r: bool) ensures r == is_blank(c) { c.is_whitespace() }
#[verifier::external_body] fn no_chars(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] fn is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body] fn begins(s: &str, t: &str) -> (r: bool) ensures r == starts(s@, t@) { s.starts_with(t) }
#[verifier::external_body] fn begins_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body] fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body] fn indexed(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == off(s@, i) && r@[i].1 == s@[i] { s.char_indices().collect() }
#[verifier::external_body] fn find_char(s: &str, c: char) -> (r: Option<usize>)
    ensures r is Some == (first(s@, c) < s@.len()), r is Some ==> r->Some_0 == off(s@, first(s@, c)) { s.find(c) }
#[verifier::external_body] fn split_parts<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == parts_of(s@) { s.split(',').map(|s| s.trim()).collect() }
#[verifier::external_body] fn read_whole(s: &str) -> (r: Result<i32, ColorParseError>) ensures r is Ok == whole(s@) is Some, r is Ok ==> r->Ok_0 == whole(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] fn read_real(s: &str) -> (r: Result<f32, ColorParseError>) ensures r is Ok == real(s@) is Some, r is Ok ==> r->Ok_0 == real(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] fn part_of_255(v: u8) -> (r: f32) ensures r == of_255(v) { v as f32 / 255.0 }
#[verifier::external_body] fn part_of_100(v: f32) -> (r: f32) ensures r == of_100(v) { v / 100.0 }
#[verifier::external_body] fn turns_off(v: f32) -> (r: f32) ensures r == turned(v) { v.rem_euclid(360.0) }
#[verifier::external_body] fn f_one() -> (r: f32) ensures r == one() { 1.0 }
#[verifier::external_body] fn f_zero() -> (r: f32) ensures r == zero() { 0.0 }
#[verifier::external_body] fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub struct ColorParseError { x: u8 }
#[verifier::external_body] fn bad() -> ColorParseError { unimplemented!() }
pub
//@ extract crates/tcss/src/types/color.rs struct RgbaColor
//@ end

// ---------------------------------------------------------------- what a colour's text says
/// the place of the first c (the length if there is none)
pub open spec fn first(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first(s.skip(1), c) } }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.subrange(0, t.len() as int) == t }
pub open spec fn channels(r: u8, g: u8, b: u8, a: f32) -> RgbaColor { RgbaColor { r, g, b, a, ansi: None, auto: false, theme_var: None } }
pub open spec fn hex_value(c: char) -> Option<u8> {
    if '0' <= c <= '9' { Some((c as u32 - '0' as u32) as u8) } else if 'a' <= c <= 'f' { Some((c as u32 - 'a' as u32 + 10) as u8) } else { None }
}
/// two digits; a single digit of a short form stands for two
pub open spec fn hex_two(a: char, b: char) -> Option<u8> {
    match (hex_value(a), hex_value(b)) { (Some(x), Some(y)) => Some((x * 16 + y) as u8), _ => None }
}
pub open spec fn hex_colour(t: Seq<char>) -> Option<RgbaColor> {
    let h = lower(t);
    let n = h.len();
    let k = if n == 3 || n == 4 { 1int } else { 2 };
    if n != 3 && n != 4 && n != 6 && n != 8 { None } else {
        let c = |i: int| hex_two(h[i * k], h[i * k + k - 1]);
        match (c(0), c(1), c(2)) {
            (Some(r), Some(g), Some(b)) => if n == 3 || n == 6 { Some(channels(r, g, b, one())) } else { match c(3) { Some(a) => Some(channels(r, g, b, of_255(a))), None => None } },
            _ => None,
        }
    }
}
pub open spec fn byte(s: Seq<char>) -> Option<u8> { match whole(s) { Some(v) => if 0 <= v <= 255 { Some(v as u8) } else { None }, None => None } }
pub open spec fn percent(s: Seq<char>) -> Option<f32> { match real(strip_percent(s)) { Some(v) => Some(of_100(v)), None => None } }
/// what is between the first ( and the first ) behind it
pub open spec fn arguments(s: Seq<char>) -> Option<Seq<Seq<char>>> {
    let (a, b) = (first(s, '('), first(s, ')'));
    if a < s.len() && b < s.len() && a < b && parts_of(s.subrange(a + 1, b)).len() >= 3 { Some(parts_of(s.subrange(a + 1, b))) } else { None }
}
pub open spec fn alpha(p: Seq<Seq<char>>) -> Option<f32> { if p.len() >= 4 { real(p[3]) } else { Some(one()) } }
pub open spec fn rgb_colour(s: Seq<char>) -> Option<RgbaColor> {
    match arguments(s) {
        None => None,
        Some(p) => match (byte(p[0]), byte(p[1]), byte(p[2]), alpha(p)) { (Some(r), Some(g), Some(b), Some(a)) => Some(channels(r, g, b, a)), _ => None },
    }
}
pub open spec fn hsl_colour(s: Seq<char>) -> Option<RgbaColor> {
    match arguments(s) {
        None => None,
        Some(p) => match (real(p[0]), percent(p[1]), percent(p[2]), alpha(p)) {
            (Some(h), Some(s), Some(l), Some(a)) => { let c = hsl(turned(h), s, l); Some(channels(c.0, c.1, c.2, a)) },
            _ => None,
        },
    }
}
pub open spec fn colour(text: Seq<char>) -> Option<RgbaColor> {
    let t = trim(text);
    let l = lower(t);
    if t.len() == 0 { None }
    else if l == "auto"@ { Some(RgbaColor { r: 0, g: 0, b: 0, a: one(), ansi: None, auto: true, theme_var: None }) }
    else if l == "transparent"@ { Some(channels(0, 0, 0, zero())) }
    else if t[0] == '#' { hex_colour(t.skip(1)) }
    else if starts(l, "rgb"@) { rgb_colour(l) }
    else if starts(l, "hsl"@) { hsl_colour(l) }
    else { named(l) }
}
/// where the colour stops in a stylesheet: behind its last parenthesis, or before a blank, ; or } outside parentheses
pub open spec fn colour_end(s: Seq<char>, i: int, depth: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { off(s, s.len() as int) }
    else if s[i] == '(' { colour_end(s, i + 1, depth + 1) }
    else if s[i] == ')' { if depth == 1 { off(s, i + 1) } else { colour_end(s, i + 1, depth - 1) } }
    else if (s[i] == ';' || s[i] == '}' || is_blank(s[i])) && depth == 0 { off(s, i) }
    else { colour_end(s, i + 1, depth) }
}
proof fn lemma_end(s: Seq<char>, i: int, depth: int)
    requires 0 <= i <= s.len(), ensures edge(s, colour_end(s, i, depth)), 0 <= colour_end(s, i, depth) <= bytes(s), decreases s.len() - i,
{ lemma_nth(s, i); lemma_nth(s, s.len() as int); if i < s.len() { lemma_nth(s, i + 1); lemma_end(s, i + 1, depth + 1); lemma_end(s, i + 1, depth - 1); lemma_end(s, i + 1, depth); } }
proof fn lemma_first(s: Seq<char>, c: char) ensures 0 <= first(s, c) <= s.len(), first(s, c) < s.len() ==> s[first(s, c)] == c, decreases s.len()
{ if s.len() > 0 && s[0] != c { lemma_first(s.skip(1), c); } }
/// how many characters from i on make up a number
pub open spec fn digits_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { i } else if '0' <= s[i] <= '9' || s[i] == '.' { digits_end(s, i + 1) } else { i } }
proof fn lemma_digits(s: Seq<char>, i: int) requires 0 <= i <= s.len(), ensures i <= digits_end(s, i) <= s.len(), decreases s.len() - i { if i < s.len() { lemma_digits(s, i + 1); } }
/// the alpha a percentage behind the colour asks for
pub open spec fn alpha_behind(text: Seq<char>) -> Option<f32> {
    let t = ltrim(text);
    let n = digits_end(t, 0);
    if 0 < n < t.len() && t[n] == '%' { match real(t.subrange(0, n)) { Some(v) => Some(of_100(v)), None => None } } else { None }
}
pub open spec fn behind_alpha(text: Seq<char>) -> Seq<char> {
    let t = ltrim(text);
    if alpha_behind(text) is Some { t.skip(digits_end(t, 0) + 1) } else { text }
}
pub open spec fn with_alpha(c: RgbaColor, a: Option<f32>) -> RgbaColor { match a { Some(a) => RgbaColor { a, ..c }, None => c } }
/// the name of a theme colour
pub open spec fn theme_colour(c: RgbaColor, name: Seq<char>, a: f32) -> bool {
    c.theme_var is Some && c.theme_var->Some_0@ == name && c == RgbaColor { r: 0, g: 0, b: 0, a, ansi: None, auto: false, theme_var: c.theme_var }
}

impl RgbaColor {
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::rgb
//@ ret c
//@ sub a: 1\.0 ==> a: f_one()
//@ sub \.\.Default::default\(\) ==> ansi: None, auto: false, theme_var: None
//@ contract
    ensures c == channels(r, g, b, one()),
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::rgba
//@ ret c
//@ sub \.\.Default::default\(\) ==> ansi: None, auto: false, theme_var: None
//@ contract
    ensures c == channels(r, g, b, a),
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::auto
//@ ret c
//@ sub \.\.Default::default\(\) ==> r: 0, g: 0, b: 0, ansi: None, theme_var: None
//@ contract
    ensures c == (RgbaColor { r: 0, g: 0, b: 0, a: alpha, ansi: None, auto: true, theme_var: None }),
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::theme_variable
//@ ret c
//@ sub name\.to_string\(\) ==> owned(name)
//@ sub \.\.Default::default\(\) ==> r: 0, g: 0, b: 0, a: f_one(), ansi: None, auto: false
//@ contract
    ensures theme_colour(c, name@, one()),
//@ end
#[verifier::external_body] fn parse_named(s: &str) -> (r: Result<RgbaColor, ColorParseError>) ensures r is Ok == named(s@) is Some, r is Ok ==> r->Ok_0 == named(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] fn hsl_to_rgb(h: f32, s: f32, l: f32) -> (r: (u8, u8, u8)) ensures r == hsl(h, s, l) { unimplemented!() }
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_hex_digit
//@ ret r
//@ sub b'0' ==> 48u8
//@ sub b'a' ==> 97u8
//@ sub ColorParseError \{\s*message: format!\(.*?\),\s*\} ==> bad()
//@ contract
    ensures r is Ok == hex_value(c) is Some, r is Ok ==> r->Ok_0 == hex_value(c)->Some_0 && r->Ok_0 < 16,
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_hex_pair
//@ ret r
//@ contract
    ensures r is Ok == hex_two(c1, c2) is Some, r is Ok ==> r->Ok_0 == hex_two(c1, c2)->Some_0,
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_hex
//@ ret r
//@ sub SIG:hex: &str ==> digits: &str
//@ sub hex\.to_lowercase\(\) ==> lowered(digits)
//@ sub hex\.chars\(\)\.collect\(\) ==> chars_of(hex.as_str())
//@ sub a as f32 / 255\.0 ==> part_of_255(a)
//@ sub ColorParseError \{\s*message: format!\(.*?\),\s*\} ==> bad()
//@ contract
    ensures r is Ok == hex_colour(digits@) is Some, r is Ok ==> r->Ok_0 == hex_colour(digits@)->Some_0,
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_u8
//@ ret r
//@ sub s\.parse\(\)\.map_err\(\|_\| ColorParseError \{.*?,\s*\}\) ==> read_whole(s)
//@ sub? ColorParseError \{\s*message: format!\(.*?\),\s*\} ==> bad()
//@ contract
    ensures r is Ok == byte(s@) is Some, r is Ok ==> r->Ok_0 == byte(s@)->Some_0,
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_f32
//@ ret r
//@ sub s\.parse\(\)\.map_err\(\|_\| ColorParseError \{.*?,\s*\}\) ==> read_real(s)
//@ contract
    ensures r is Ok == real(s@) is Some, r is Ok ==> r->Ok_0 == real(s@)->Some_0,
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_percentage
//@ ret r
//@ sub SIG:s: &str ==> given: &str
//@ sub s\.trim_end_matches\('%'\) ==> without_percent(given)
//@ sub s\.parse\(\)\.map_err\(\|_\| ColorParseError \{.*?,\s*\}\) ==> read_real(s)
//@ sub val / 100\.0 ==> part_of_100(val)
//@ contract
    ensures r is Ok == percent(given@) is Some, r is Ok ==> r->Ok_0 == percent(given@)->Some_0,
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_rgb_func
//@ ret r
//@ sub input\s*\.find\(('.')\) ==> find_char(input, \1)
//@ sub \.ok_or_else\(\|\| ColorParseError \{.*?,\s*\}\) ==> .ok_or(bad())
//@ sub? ColorParseError \{\s*message: .*?,\s*\} ==> bad()
//@ sub &input\[start \+ 1\.\.end\] ==> { proof { lemma_between(input@); } slice(input, start + 1, end) }
//@ sub content\.split\(','\)\.map\(\|s\| s\.trim\(\)\)\.collect\(\) ==> split_parts(content)
//@ sub else \{\s*1\.0\s*\} ==> else { f_one() }
//@ contract
    ensures r is Ok == rgb_colour(input@) is Some, r is Ok ==> r->Ok_0 == rgb_colour(input@)->Some_0,
//@ start
    proof {
        lemma_first(input@, '('); lemma_first(input@, ')');
        if first(input@, '(') < first(input@, ')') { lemma_off(input@, first(input@, '('), first(input@, ')')); }
    }
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse_hsl_func
//@ ret r
//@ sub input\s*\.find\(('.')\) ==> find_char(input, \1)
//@ sub \.ok_or_else\(\|\| ColorParseError \{.*?,\s*\}\) ==> .ok_or(bad())
//@ sub parts\[0\]\.parse\(\)\.map_err\(\|_\| ColorParseError \{.*?,\s*\}\) ==> read_real(parts[0])
//@ sub? ColorParseError \{\s*message: .*?,\s*\} ==> bad()
//@ sub &input\[start \+ 1\.\.end\] ==> { proof { lemma_between(input@); } slice(input, start + 1, end) }
//@ sub content\.split\(','\)\.map\(\|s\| s\.trim\(\)\)\.collect\(\) ==> split_parts(content)
//@ sub else \{\s*1\.0\s*\} ==> else { f_one() }
//@ sub? h\.rem_euclid\(360\.0\) ==> turns_off(h)
//@ contract
    ensures r is Ok == hsl_colour(input@) is Some, r is Ok ==> r->Ok_0 == hsl_colour(input@)->Some_0,
//@ start
    proof {
        lemma_first(input@, '('); lemma_first(input@, ')');
        if first(input@, '(') < first(input@, ')') { lemma_off(input@, first(input@, '('), first(input@, ')')); }
    }
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::parse
//@ ret r
//@ sub SIG:input: &str ==> given: &str
//@ sub input\.trim\(\) ==> trimmed(given)
//@ sub input\.is_empty\(\) ==> no_chars(input)
//@ sub ColorParseError \{\s*message: .*?,\s*\} ==> bad()
//@ sub input\.to_lowercase\(\) ==> lowered(input)
//@ sub match lower\.as_str\(\) \{ ==> {
//@ sub "([^"]*)" => return ([^;]*?),\n ==> if is(lower.as_str(), "\1") { return \2; } else\n
//@ sub _ => \{\} ==> {}
//@ sub 1\.0 ==> f_one()
//@ sub 0\.0 ==> f_zero()
//@ sub input\.starts_with\('#'\) ==> begins_with(input, '#')
//@ sub lower\.starts_with\( ==> begins(lower.as_str(),
//@ sub &input\[1\.\.\] ==> { proof { lemma_nth(input@, 0); lemma_nth(input@, 1); assert(off(input@, 0) == 0); assert(rest(input@, 1) =~= input@.skip(1)); } tail(input, 1) }
//@ sub \(&lower\) ==> (lower.as_str())
//@ contract
    ensures r is Ok == colour(given@) is Some, r is Ok ==> r->Ok_0 == colour(given@)->Some_0,
//@ end
}
/// between the first ( and the first ) there is a piece of the text
proof fn lemma_between(s: Seq<char>)
    requires first(s, '(') < s.len(), first(s, ')') < s.len(), off(s, first(s, '(')) <= off(s, first(s, ')')),
    ensures ({ let (a, b) = (first(s, '('), first(s, ')'));
        a < b && off(s, a + 1) == off(s, a) + 1 && edge(s, off(s, a) + 1) && edge(s, off(s, b)) && nth(s, off(s, a) + 1) == a + 1 && nth(s, off(s, b)) == b && off(s, a) + 1 <= off(s, b) }),
{
    let (a, b) = (first(s, '('), first(s, ')'));
    lemma_first(s, '('); lemma_first(s, ')');
    lemma_nth(s, a); lemma_nth(s, b); lemma_nth(s, a + 1);
    if b < a { lemma_off(s, b, a); }
    lemma_off(s, a + 1, b);
}

//@ extract crates/tcss/src/parser/values.rs fn find_color_end
//@ ret r
//@ sub for \(i, c\) in input\.char_indices\(\) \{ ==> let cs = indexed(input); let mut at: usize = 0; while at < cs.len() { let (i, c) = cs[at]; at += 1;
//@ sub let mut paren_depth = 0 ==> let mut paren_depth: i32 = 0
//@ sub let mut end = 0 ==> let mut end: usize = 0
//@ sub? ';' \| '\}' if paren_depth == 0 => ==> c if (c == ';' || c == '}') && paren_depth == 0 =>
//@ sub c\.is_whitespace\(\) ==> blank(c)
//@ sub c\.len_utf8\(\) ==> utf8_len(c)
//@ nloops 1
//@ contract
    requires input@.len() < 0x7fff_ffff,
    ensures r == colour_end(input@, 0, 0), edge(input@, r as int), r <= bytes(input@),
//@ start
    proof { lemma_end(input@, 0, 0); }
    let size = byte_len(input);
//@ loop 1
    invariant input@.len() < 0x7fff_ffff, cs@.len() == input@.len(), at <= cs.len(), forall|j: int| 0 <= j < cs@.len() ==> (#[trigger] cs@[j]).0 == off(input@, j) && cs@[j].1 == input@[j],
        colour_end(input@, at as int, paren_depth as int) == colour_end(input@, 0, 0), -at <= paren_depth <= at, end == off(input@, at as int),
        edge(input@, colour_end(input@, 0, 0)), colour_end(input@, 0, 0) <= bytes(input@), size == bytes(input@),
    decreases cs.len() - at,
//@ loop_start 1
    proof { lemma_nth(input@, at as int); lemma_nth(input@, at + 1); }
//@ end
//@ extract crates/tcss/src/parser/values.rs fn parse_optional_alpha
//@ ret r
//@ sub SIG:mut color: RgbaColor ==> given: RgbaColor
//@ sub input\.trim_start\(\) ==> left_trimmed(input)
//@ sub for \(i, c\) in trimmed\.char_indices\(\) \{ ==> let cs = indexed(trimmed); let size = byte_len(trimmed); let mut at: usize = 0; while at < cs.len() { let (i, c) = cs[at]; at += 1;
//@ sub let mut end = 0 ==> let mut end: usize = 0
//@ sub c\.len_utf8\(\) ==> utf8_len(c)
//@ sub c\.is_ascii_digit\(\) ==> ('0' <= c && c <= '9')
//@ sub &trimmed\[\.\.end\] ==> slice(trimmed, 0, end)
//@ sub percent_str\.parse::<f32>\(\) ==> read_real(percent_str)
//@ sub percent / 100\.0 ==> part_of_100(percent)
//@ sub &trimmed\[end \+ 1\.\.\] ==> tail(trimmed, end + 1)
//@ nloops 1
//@ contract
    ensures r.0@ == behind_alpha(input@), r.1 == with_alpha(given, alpha_behind(input@)),
//@ start
    let mut color = given;
//@ loop 1
    invariant_except_break
        found_digits == (at > 0), digits_end(trimmed@, at as int) == digits_end(trimmed@, 0), end == off(trimmed@, at as int),
    invariant trimmed@ == ltrim(input@), cs@.len() == trimmed@.len(), at <= cs.len(), forall|j: int| 0 <= j < cs@.len() ==> (#[trigger] cs@[j]).0 == off(trimmed@, j) && cs@[j].1 == trimmed@[j],
        color == given, size == bytes(trimmed@),
    ensures alpha_behind(input@) is None, color == given,
    decreases cs.len() - at,
//@ loop_start 1
    proof {
        lemma_nth(trimmed@, 0); lemma_nth(trimmed@, at as int); lemma_nth(trimmed@, at + 1); assert(off(trimmed@, 0) == 0);
        assert(rest(trimmed@, off(trimmed@, at + 1)) =~= trimmed@.skip(at + 1));
    }
//@ end
pub struct Unread { pub dummy: u8 }
#[verifier::external_body] fn not_read() -> Unread { unimplemented!() }
//@ extract crates/tcss/src/parser/values.rs fn parse_color
//@ ret r
//@ sub SIG:input: &str ==> given: &str
//@ sub SIG:IResult<&str, RgbaColor> ==> Result<(&str, RgbaColor), Unread>
//@ sub input\.trim_start\(\) ==> left_trimmed(given)
//@ sub nom::Err::Error\(nom::error::Error::new\(\s*input,\s*nom::error::ErrorKind::Tag,?\s*\)\) ==> not_read()
//@ sub &input\[\.\.end\] ==> slice(input, 0, end)
//@ sub &input\[end\.\.\] ==> tail(input, end)
//@ sub color_str\.starts_with\('\$'\) ==> begins_with(color_str, '$')
//@ sub &color_str\[1\.\.\] ==> { proof { lemma_nth(color_str@, 0); lemma_nth(color_str@, 1); assert(off(color_str@, 0) == 0); assert(rest(color_str@, 1) =~= color_str@.skip(1)); } tail(color_str, 1) }
//@ contract
    requires ltrim(given@).len() < 0x7fff_ffff,
    ensures ({
        let t = ltrim(given@);
        let e = nth(t, colour_end(t, 0, 0));
        let (w, behind) = (t.subrange(0, e), t.skip(e));
        if e > 0 && w[0] == '$' { r is Ok && r->Ok_0.0@ == behind_alpha(behind) && theme_colour(r->Ok_0.1, w.skip(1), match alpha_behind(behind) { Some(a) => a, None => one() }) }
        else if e > 0 && colour(w) is Some { r is Ok && r->Ok_0.0@ == behind_alpha(behind) && r->Ok_0.1 == with_alpha(colour(w)->Some_0, alpha_behind(behind)) }
        else { r is Err }
    }),
//@ start
    proof {
        let t = ltrim(given@);
        lemma_end(t, 0, 0); lemma_nth(t, 0); assert(off(t, 0) == 0); assert(edge(t, 0));
        let e = nth(t, colour_end(t, 0, 0));
        assert(rest(t, colour_end(t, 0, 0)) =~= t.skip(e));
        if e > 0 { lemma_off(t, 0, e); }
    }
//@ end
}
fn main() {}
