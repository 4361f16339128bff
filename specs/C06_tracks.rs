use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

verus! {
//@ include C05_fraction.rs

// ---------------------------------------------------------------- denominators of a running sum of n/T
/// a greatest common divisor exists
proof fn lemma_gcd_exists(a: int, b: int) -> (g: int)
    requires a >= 0, b >= 0, a != 0 || b != 0,
    ensures is_gcd(g, a, b),
    decreases b,
{
    if b == 0 { lemma_self(a); assert(common(a, a, b)); a }
    else {
        lemma_step(a, b);
        assert(a % b >= 0 && a % b < b) by (nonlinear_arith) requires a >= 0, b > 0;
        let g = lemma_gcd_exists(b, a % b);
        assert(common(g, b, a % b));
        assert(common(g, a, b));
        assert forall|d: int| common(d, a, b) implies #[trigger] divides(d, g) by { assert(common(d, b, a % b)); }
        g
    }
}
/// Euclid: n/d in lowest terms and d | n*T give d <= T
proof fn lemma_euclid(n: int, d: int, t: int, m: int)
    requires lowest(n, d), d > 0, t > 0, n * t == m * d,
    ensures d <= t,
{
    let an = if n < 0 { -n } else { n };
    assert(an * t >= 0 && d * t > 0) by (nonlinear_arith) requires an >= 0, t > 0, d > 0;
    let h = lemma_gcd_exists(an * t, d * t);
    assert(divides(t, an * t)) by { assert(an * t == an * t); }
    assert(divides(t, d * t)) by { assert(d * t == d * t); }
    assert(common(t, an * t, d * t));
    assert(divides(t, h));
    let k = choose|k: int| h == #[trigger] (k * t);
    assert(k > 0) by (nonlinear_arith) requires h == k * t, h > 0, t > 0;
    // k divides n and d
    let q1 = choose|q: int| an * t == #[trigger] (q * h);
    let q2 = choose|q: int| d * t == #[trigger] (q * h);
    assert(an == q1 * k) by (nonlinear_arith) requires an * t == q1 * h, h == k * t, t > 0;
    assert(d == q2 * k) by (nonlinear_arith) requires d * t == q2 * h, h == k * t, t > 0;
    assert(divides(k, an)); assert(divides(k, d));
    lemma_signs(k, an);
    if k > 1 { assert(common(k, n, d)); assert(false); }
    assert(h == t) by (nonlinear_arith) requires h == k * t, k == 1;
    // d divides n*t and d*t, hence h
    let am = if n < 0 { -m } else { m };
    assert(an * t == am * d) by (nonlinear_arith) requires n * t == m * d, an == (if n < 0 { -n } else { n }), am == (if n < 0 { -m } else { m });
    assert(divides(d, an * t));
    assert(d * t == t * d) by (nonlinear_arith);
    assert(divides(d, d * t));
    assert(common(d, an * t, d * t));
    assert(divides(d, h));
    let j = choose|j: int| h == #[trigger] (j * d);
    assert(d <= t) by (nonlinear_arith) requires t == j * d, t > 0, d > 0;
}

/// floor of a/b
pub open spec fn fdiv(a: int, b: int) -> int { a / b }
proof fn lemma_floor_unique(a: int, b: int, q: int)
    requires b > 0, q * b <= a < (q + 1) * b,
    ensures a / b == q,
{
    assert(0 <= a - q * b < b) by (nonlinear_arith) requires q * b <= a, a < (q + 1) * b;
    lemma_fundamental_div_mod_converse(a, b, q, a - q * b);
}
/// one step of the carry: the remainder is the fractional part of m/t, w cells more of the whole r are handed out
proof fn lemma_carry(rn: int, rd: int, m: int, t: int, x: int, sn: int, sd: int, an: int, ad: int)
    requires t > 0, rd > 0, sd > 0, ad > 0,
        0 <= rn < rd, rn * t == (m - (m / t) * t) * rd,   // remainder
        sn * t == x * sd,                                  // the new share x/t, reduced
        an * (sd * rd) == (sn * rd + rn * sd) * ad,        // their sum, reduced
        lowest(an, ad),
    ensures an / ad == (m + x) / t - m / t, ad <= t,
        an * t == (x + (m - (m / t) * t)) * ad,
{
    let f = m - (m / t) * t;
    assert(0 <= f < t) by { lemma_fundamental_div_mod(m, t); assert(f == m % t) by (nonlinear_arith) requires m == t * (m / t) + m % t, f == m - (m / t) * t; };
    // value of the sum is (x + f) / t
    assert((sn * rd + rn * sd) * t == (x + f) * (sd * rd)) by (nonlinear_arith) requires sn * t == x * sd, rn * t == f * rd;
    assert(sd * rd > 0) by (nonlinear_arith) requires sd > 0, rd > 0;
    assert(an * t == (x + f) * ad) by (nonlinear_arith)
        requires an * (sd * rd) == (sn * rd + rn * sd) * ad, (sn * rd + rn * sd) * t == (x + f) * (sd * rd), sd * rd > 0;
    lemma_euclid(an, ad, t, x + f);
    let q = (x + f) / t;
    lemma_fundamental_div_mod(x + f, t);
    assert(q * t <= x + f < (q + 1) * t) by (nonlinear_arith) requires x + f == t * q + (x + f) % t, 0 <= (x + f) % t < t;
    assert(q * ad <= an < (q + 1) * ad) by (nonlinear_arith) requires an * t == (x + f) * ad, q * t <= x + f, x + f < (q + 1) * t, t > 0, ad > 0;
    lemma_floor_unique(an, ad, q);
    assert((q + m / t) * t <= m + x < (q + m / t + 1) * t) by (nonlinear_arith) requires q * t <= x + f, x + f < (q + 1) * t, f == m - (m / t) * t;
    lemma_floor_unique(m + x, t, q + m / t);
}
/// the fractional part of the sum is the remainder for m + x
proof fn lemma_carry_rest(an: int, ad: int, m: int, t: int, x: int, rn: int, rd: int)
    requires t > 0, ad > 0, rd > 0, an / ad == (m + x) / t - m / t, an * t == (x + (m - (m / t) * t)) * ad,
        rn * ad == (an - (an / ad) * ad) * rd,
    ensures rn * t == ((m + x) - ((m + x) / t) * t) * rd,
{
    let q = an / ad;
    assert((an - q * ad) * t == ((m + x) - ((m + x) / t) * t) * ad) by (nonlinear_arith)
        requires an * t == (x + (m - (m / t) * t)) * ad, q == (m + x) / t - m / t;
    assert(rn * t * ad == ((m + x) - ((m + x) / t) * t) * rd * ad) by (nonlinear_arith)
        requires rn * ad == (an - q * ad) * rd, (an - q * ad) * t == ((m + x) - ((m + x) / t) * t) * ad;
    assert(rn * t == ((m + x) - ((m + x) / t) * t) * rd) by (nonlinear_arith)
        requires rn * t * ad == ((m + x) - ((m + x) / t) * t) * rd * ad, ad > 0;
}

// ---------------------------------------------------------------- the code's types
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
pub
//@ extract crates/tcss/src/types/geometry.rs enum Unit
//@ end
pub
//@ extract crates/tcss/src/types/geometry.rs struct Scalar
//@ end
impl Copy for Scalar {}
impl Clone for Scalar { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[derive(Clone, Copy)]
pub
//@ extract crates/textual/src/layouts/grid.rs struct ResolvedTrack
//@ sub pub\(crate\) ==> pub
//@ end
pub struct GridLayout {}

// ---------------------------------------------------------------- vocabulary
/// weight of a fractional track in thousandths; cells asked for by any other track
pub uninterp spec fn weight(s: Scalar) -> int;
pub uninterp spec fn asked(s: Scalar, available: int) -> int;
pub uninterp spec fn one_fr() -> Scalar;
pub open spec fn spec_at(specs: Seq<Scalar>, i: int) -> Scalar { if specs.len() == 0 { one_fr() } else { specs[i % (specs.len() as int)] } }
pub open spec fn track_seq(specs: Seq<Scalar>, count: int) -> Seq<Scalar> { Seq::new(count as nat, |i: int| spec_at(specs, i)) }
pub open spec fn is_fr(s: Scalar) -> bool { s.unit == Unit::Fraction }
pub open spec fn is_auto(s: Scalar) -> bool { s.unit == Unit::Auto }
/// what a track weighs in a distribution over fractional (or, by = false, automatic) tracks
pub open spec fn wt(s: Scalar, fr: bool) -> int { if fr { if is_fr(s) { weight(s) } else { 0 } } else { if is_auto(s) { 1 } else { 0 } } }
pub open spec fn cum(t: Seq<Scalar>, fr: bool, i: int) -> int decreases i { if i <= 0 { 0 } else { cum(t, fr, i - 1) + wt(t[i - 1], fr) } }
pub open spec fn fixed_sum(t: Seq<Scalar>, avail: int, i: int) -> int decreases i {
    if i <= 0 { 0 } else { fixed_sum(t, avail, i - 1) + if is_fr(t[i - 1]) || is_auto(t[i - 1]) { 0 } else { asked(t[i - 1], avail) } }
}
pub open spec fn max_(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn space(available: int, count: int, gutter: int) -> int { max_(available - (count - 1) * gutter, 0) }
pub open spec fn rest(t: Seq<Scalar>, avail: int) -> int { avail - fixed_sum(t, avail, t.len() as int) }
/// cumulative rounding: the cells between the i-th and the (i+1)-st share boundary
pub open spec fn share(t: Seq<Scalar>, fr: bool, r: int, i: int) -> int {
    fdiv(r * cum(t, fr, i + 1), cum(t, fr, t.len() as int)) - fdiv(r * cum(t, fr, i), cum(t, fr, t.len() as int))
}
pub open spec fn track_size(t: Seq<Scalar>, avail: int, i: int) -> int {
    let by_fr = cum(t, true, t.len() as int) > 0;
    if is_fr(t[i]) { if by_fr { share(t, true, rest(t, avail), i) } else { 0 } }
    else if is_auto(t[i]) { if by_fr { 0 } else { share(t, false, rest(t, avail), i) } }
    else { asked(t[i], avail) }
}

proof fn lemma_cum(t: Seq<Scalar>, fr: bool, i: int, n: int)
    requires 0 <= i <= n <= t.len(), forall|k: int| 0 <= k < t.len() ==> 0 <= #[trigger] weight(t[k]),
    ensures 0 <= cum(t, fr, i) <= cum(t, fr, n), !fr ==> cum(t, fr, i) <= i,
    decreases n,
{
    if i < n { lemma_cum(t, fr, i, n - 1); assert(weight(t[n - 1]) >= 0); }
    else if n > 0 { lemma_cum(t, fr, i - 1, n - 1); assert(weight(t[n - 1]) >= 0); }
}
proof fn lemma_fixed(t: Seq<Scalar>, avail: int, i: int)
    requires 0 <= i <= t.len(), forall|k: int| 0 <= k < t.len() ==> 0 <= #[trigger] asked(t[k], avail) <= 0x10000,
    ensures 0 <= fixed_sum(t, avail, i) <= 0x10000 * i,
    decreases i,
{
    if i > 0 { lemma_fixed(t, avail, i - 1); assert(0 <= asked(t[i - 1], avail) <= 0x10000); }
}
proof fn lemma_big(r: int, w: int, t: int)
    requires -0x200_0000 <= r <= 0x200_0000, 0 <= w <= t, 0 < t <= 0x4_0000,
    ensures -0x800_0000_0000 <= r * w <= 0x800_0000_0000,
{
    assert(-0x200_0000 * 0x4_0000 <= r * w <= 0x200_0000 * 0x4_0000) by (nonlinear_arith) requires -0x200_0000 <= r <= 0x200_0000, 0 <= w <= 0x4_0000;
}
proof fn lemma_small_frac(n: int, d: int, x: int, t: int)
    requires d > 0, t > 0, d <= t, n * t == x * d,
    ensures x >= 0 ==> 0 <= n <= x, x < 0 ==> x <= n <= 0,
{
    assert(x >= 0 ==> 0 <= n <= x) by (nonlinear_arith) requires d > 0, t > 0, d <= t, n * t == x * d;
    assert(x < 0 ==> x <= n <= 0) by (nonlinear_arith) requires d > 0, t > 0, d <= t, n * t == x * d;
}
/// no overflow in  Fraction::new(r * w, t) + remainder
proof fn lemma_add_fits(sn: int, sd: int, rn: int, rd: int, x: int, t: int)
    requires 0 < t <= 0x4_0000, sd > 0, sd <= t, 0 <= rn < rd <= t, sn * t == x * sd, -0x800_0000_0000 <= x <= 0x800_0000_0000,
    ensures i64::MIN < sn * rd <= i64::MAX, i64::MIN < rn * sd <= i64::MAX, i64::MIN < sn * rd + rn * sd <= i64::MAX, 0 < sd * rd <= i64::MAX,
        -0x4000_0000_0000_0000 < sn * rd + rn * sd < 0x4000_0000_0000_0000, sd * rd <= 0x10_0000_0000,
{
    lemma_small_frac(sn, sd, x, t);
    assert(-0x800_0000_0000 * 0x4_0000 <= sn * rd <= 0x800_0000_0000 * 0x4_0000) by (nonlinear_arith) requires -0x800_0000_0000 <= sn <= 0x800_0000_0000, 0 < rd <= 0x4_0000;
    assert(0 <= rn * sd <= 0x4_0000 * 0x4_0000) by (nonlinear_arith) requires 0 <= rn <= 0x4_0000, 0 < sd <= 0x4_0000;
    assert(0 < sd * rd <= 0x4_0000 * 0x4_0000) by (nonlinear_arith) requires 0 < rd <= 0x4_0000, 0 < sd <= 0x4_0000;
}
/// bounds on the reduced sum
proof fn lemma_sum_small(an: int, ad: int, f: int, x: int, t: int)
    requires 0 < t <= 0x4_0000, 0 < ad <= t, 0 <= f < t, -0x800_0000_0000 <= x <= 0x800_0000_0000, an * t == (x + f) * ad,
    ensures -0x1000_0000_0000 < an < 0x1000_0000_0000,
{
    lemma_small_frac(an, ad, x + f, t);
}

// ---------------------------------------------------------------- theorems: the property, from track_size
/// every fractional track gets its share to within a cell
proof fn theorem_within_one_cell(t: Seq<Scalar>, fr: bool, r: int, i: int)
    requires 0 <= i < t.len(), cum(t, fr, t.len() as int) > 0,
    ensures ({ let T = cum(t, fr, t.len() as int); let d = share(t, fr, r, i) * T - r * wt(t[i], fr); -T < d < T }),
{
    let T = cum(t, fr, t.len() as int);
    let a = r * cum(t, fr, i + 1); let b = r * cum(t, fr, i);
    lemma_fundamental_div_mod(a, T); lemma_fundamental_div_mod(b, T);
    assert(a - b == r * wt(t[i], fr)) by (nonlinear_arith) requires a == r * cum(t, fr, i + 1), b == r * cum(t, fr, i), cum(t, fr, i + 1) == cum(t, fr, i) + wt(t[i], fr);
    assert((a / T - b / T) * T == a - b - (a % T - b % T)) by (nonlinear_arith) requires a == T * (a / T) + a % T, b == T * (b / T) + b % T;
}
pub open spec fn share_sum(t: Seq<Scalar>, fr: bool, r: int, i: int) -> int decreases i { if i <= 0 { 0 } else { share_sum(t, fr, r, i - 1) + share(t, fr, r, i - 1) } }
/// together they are exactly the space that was left
proof fn theorem_shares_add_up(t: Seq<Scalar>, fr: bool, r: int)
    requires cum(t, fr, t.len() as int) > 0,
    ensures share_sum(t, fr, r, t.len() as int) == r,
{
    let T = cum(t, fr, t.len() as int);
    lemma_share_sum(t, fr, r, t.len() as int);
    assert((r * T) / T == r) by { lemma_div_multiples_vanish(r, T); assert(T * r == r * T) by (nonlinear_arith); }
    assert((r * cum(t, fr, 0)) / T == 0) by { assert(r * 0 == 0) by (nonlinear_arith); assert(0int / T == 0) by (nonlinear_arith) requires T > 0; }
}
proof fn lemma_share_sum(t: Seq<Scalar>, fr: bool, r: int, i: int)
    requires 0 <= i <= t.len(),
    ensures share_sum(t, fr, r, i) == fdiv(r * cum(t, fr, i), cum(t, fr, t.len() as int)) - fdiv(r * cum(t, fr, 0), cum(t, fr, t.len() as int)),
    decreases i,
{
    if i > 0 { lemma_share_sum(t, fr, r, i - 1); }
}
/// a track whose exact share is a whole cell or more is never widened to the minimum
proof fn theorem_min_not_needed(t: Seq<Scalar>, fr: bool, r: int, i: int)
    requires 0 <= i < t.len(), cum(t, fr, t.len() as int) > 0, r * wt(t[i], fr) >= cum(t, fr, t.len() as int),
    ensures share(t, fr, r, i) >= 1,
{
    let T = cum(t, fr, t.len() as int);
    theorem_within_one_cell(t, fr, r, i);
    let s = share(t, fr, r, i);
    assert(s >= 1) by (nonlinear_arith) requires s * T - r * wt(t[i], fr) > -T, r * wt(t[i], fr) >= T, T > 0;
}

// ---------------------------------------------------------------- functions under contract
pub open spec fn inputs_ok(specs: Seq<Scalar>, count: int, available: int, gutter: int) -> bool {
    &&& 0 <= count <= 0x100 && -0x10_0000 <= available <= 0x10_0000 && 0 <= gutter <= 0x10000
    &&& count > 0 ==> cum(track_seq(specs, count), true, count) <= 0x4_0000
    &&& forall|s: Scalar| #![trigger weight(s)] 0 <= weight(s) <= 0x4_0000
    &&& forall|s: Scalar, a: int| #![trigger asked(s, a)] 0 <= asked(s, a) <= 0x10000
}
/// f64 arithmetic: `(value * 1000).round()`, and the size a fixed or percentage track asks for
impl GridLayout {
#[verifier::external_body] fn scale_fr(s: &Scalar) -> (r: i64) ensures r == weight(*s), 0 <= r <= 0x4_0000 { unimplemented!() }
#[verifier::external_body] fn resolve_scalar(s: &Scalar, available: i32) -> (r: i32) ensures r == asked(*s, available as int), 0 <= r <= 0x10000 { unimplemented!() }
}
#[verifier::external_body] fn fr_one() -> (r: Scalar) ensures r == one_fr(), r.unit == Unit::Fraction, weight(r) == 1000 { unimplemented!() }
fn count_auto(v: &Vec<Scalar>) -> (r: usize)
    requires v@.len() <= 0x100, forall|s: Scalar| #![trigger weight(s)] 0 <= weight(s) <= 0x4_0000,
    ensures r == cum(v@, false, v@.len() as int),
{
    let mut n: usize = 0;
    for i in 0..v.len() invariant v@.len() <= 0x100, n == cum(v@, false, i as int), n <= i { if v[i].unit == Unit::Auto { n = n + 1; } }
    n
}
pub open spec fn rem_ok(rn: int, rd: int, m: int, t: int) -> bool { rd > 0 && 0 <= rn < rd && rd <= t && rn * t == (m - (m / t) * t) * rd }

impl GridLayout {
//@ extract crates/textual/src/layouts/grid.rs fn GridLayout::distribute_space
//@ ret res
//@ nloops 6
//@ sub let track_specs: Vec<Scalar> = \(0\.\.count\)\s*\.map\(\|i\| \{(.*?)\}\)\s*\.collect\(\); ==> let mut track_specs: Vec<Scalar> = Vec::new(); for i in 0..count { let item = {\1}; track_specs.push(item); } let ghost t = track_specs@; let ghost av = available_for_tracks as int; proof { assert(t =~= track_seq(specs@, count as int)); lemma_cum(t, true, 0, count as int); lemma_cum(t, false, 0, count as int); lemma_cum(t, false, count as int, count as int); lemma_fixed(t, av, count as int); }
//@ sub Scalar::fr\(1\.0\) ==> fr_one()
//@ sub for \(i, spec\) in track_specs\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..track_specs.len() { let spec = &track_specs[i];
//@ sub track_specs\.iter\(\)\.filter\(\|s\| s\.unit == Unit::Auto\)\.count\(\) ==> count_auto(&track_specs)
//@ sub (Fraction::new\([^;]*?\)) \+ remainder; ==> ({ let part = \1; proof { lemma_add_fits(part.n(), part.d(), remainder.n(), remainder.d(), gx, gt); } let total = part.add(remainder); proof { lemma_carry(remainder.n(), remainder.d(), gm, gt, gx, part.n(), part.d(), total.n(), total.d()); lemma_mod_range(gm, gt); lemma_sum_small(total.n(), total.d(), gm - (gm / gt) * gt, gx, gt); lemma_share_small(t, gfr, gr, i as int); } total });
//@ sub remainder = raw\.fract\(\); ==> remainder = raw.fract(); proof { lemma_carry_rest(raw.n(), raw.d(), gm, gt, gx, remainder.n(), remainder.d()); }
//@ sub let total_gutter = ==> proof { lemma_gutter(count as int, gutter as int); } let total_gutter =
//@ sub let mut remainder = Fraction::ZERO; ==> let mut remainder = Fraction::ZERO; proof { lemma_rem_zero(if total_fr > 0 { total_fr as int } else { auto_count as int }, remaining as int); }
//@ sub for size in &mut sizes \{ ==> for q in 0..count {
//@ sub \*size ==> sizes[q]
//@ contract
    requires inputs_ok(specs@, count as int, available as int, gutter as int),
    ensures res@.len() == count,
        forall|i: int| 0 <= i < count ==> (#[trigger] res@[i]) == max_(1, track_size(track_seq(specs@, count as int), space(available as int, count as int, gutter as int), i)),
//@ loop 1
    invariant inputs_ok(specs@, count as int, available as int, gutter as int), track_specs@.len() == i,
        forall|k: int| 0 <= k < i ==> #[trigger] track_specs@[k] == spec_at(specs@, k),
        specs@.len() == 0 ==> weight(one_fr()) == 1000 || i == 0,
        specs@.len() == 0 && i > 0 ==> is_fr(one_fr()),
//@ loop_start 1
    proof { if specs@.len() > 0 { assert(0 <= (i as int) % (specs@.len() as int) < specs@.len()) by (nonlinear_arith) requires specs@.len() > 0, i >= 0; } }
//@ loop 2
    invariant inputs_ok(specs@, count as int, available as int, gutter as int), t == track_specs@, t.len() == count, av == available_for_tracks, 0 <= av <= 0x100_0000, sizes@.len() == count,
        cum(t, true, count as int) <= 0x4_0000,
        total_fr == cum(t, true, i as int), remaining == av - fixed_sum(t, av, i as int),
        forall|k: int| 0 <= k < count ==> (#[trigger] sizes@[k]) == if k >= i || is_fr(t[k]) || is_auto(t[k]) { 0 } else { asked(t[k], av) },
//@ loop_start 2
    proof { lemma_cum(t, true, i + 1, count as int); lemma_cum(t, true, i as int, i + 1); lemma_fixed(t, av, i as int); lemma_fixed(t, av, i + 1); }
//@ after_loop 2
    proof { lemma_fixed(t, av, count as int); if specs@.len() == 0 { lemma_first(t, count as int); } }
//@ loop 3
    invariant inputs_ok(specs@, count as int, available as int, gutter as int), t == track_specs@, t.len() == count, sizes@.len() == count,
        total_fr == cum(t, true, count as int), 0 < total_fr <= 0x4_0000, -0x200_0000 <= remaining <= 0x200_0000, remaining == rest(t, av),
        remainder.wf(), rem_ok(remainder.n(), remainder.d(), remaining * cum(t, true, i as int), total_fr as int),
        forall|k: int| 0 <= k < count ==> (#[trigger] sizes@[k]) == if is_fr(t[k]) { if k < i { share(t, true, remaining as int, k) } else { 0 } } else if is_auto(t[k]) { 0 } else { asked(t[k], av) },
//@ loop_start 3
    let ghost gfr = true; let ghost gr = remaining as int; let ghost gt = total_fr as int; let ghost gm = remaining * cum(t, true, i as int); let ghost gx = remaining * wt(t[i as int], true);
    proof {
        lemma_cum(t, true, 0, i as int); lemma_cum(t, true, i + 1, count as int); lemma_cum(t, true, i as int, i + 1);
        assert(gm + gx == remaining * cum(t, true, i + 1)) by (nonlinear_arith) requires gm == remaining * cum(t, true, i as int), gx == remaining * wt(t[i as int], true), cum(t, true, i + 1) == cum(t, true, i as int) + wt(t[i as int], true);
        lemma_big(remaining as int, wt(t[i as int], true), gt);
    }
//@ loop 4
    invariant inputs_ok(specs@, count as int, available as int, gutter as int), t == track_specs@, t.len() == count, sizes@.len() == count,
        auto_count == cum(t, false, count as int), 0 < auto_count <= 0x4_0000, -0x200_0000 <= remaining <= 0x200_0000, remaining == rest(t, av),
        remainder.wf(), rem_ok(remainder.n(), remainder.d(), remaining * cum(t, false, i as int), auto_count as int),
        forall|k: int| 0 <= k < count ==> (#[trigger] sizes@[k]) == if is_auto(t[k]) { if k < i { share(t, false, remaining as int, k) } else { 0 } } else if is_fr(t[k]) { 0 } else { asked(t[k], av) },
//@ loop_start 4
    let ghost gfr = false; let ghost gr = remaining as int; let ghost gt = auto_count as int; let ghost gm = remaining * cum(t, false, i as int); let ghost gx = remaining * wt(t[i as int], false);
    proof {
        lemma_cum(t, false, 0, i as int); lemma_cum(t, false, i + 1, count as int); lemma_cum(t, false, i as int, i + 1);
        assert(gm + gx == remaining * cum(t, false, i + 1)) by (nonlinear_arith) requires gm == remaining * cum(t, false, i as int), gx == remaining * wt(t[i as int], false), cum(t, false, i + 1) == cum(t, false, i as int) + wt(t[i as int], false);
        lemma_big(remaining as int, wt(t[i as int], false), gt);
        assert(wt(t[i as int], false) == 1 ==> gx == remaining) by (nonlinear_arith) requires gx == remaining * wt(t[i as int], false);
    }
//@ loop 5
    invariant false,
//@ loop_start 5
    let ghost gfr = false; let ghost gr = 0int; let ghost gt = 1int; let ghost gm = 0int; let ghost gx = 0int; let ghost i = 0int;
//@ before_loop 6
    let ghost raw_sizes = sizes@;
    proof {
        assert forall|k: int| 0 <= k < count implies (#[trigger] raw_sizes[k]) == track_size(t, av, k) by { if auto_count == 0 { lemma_no_auto(t, k, count as int); } }
    }
//@ loop 6
    invariant sizes@.len() == count, raw_sizes.len() == count,
        forall|k: int| 0 <= k < count ==> (#[trigger] sizes@[k]) == if k < q { max_(1, raw_sizes[k] as int) } else { raw_sizes[k] as int },
//@ end
}

/// tracks in order, a gutter apart, starting at the edge
pub open spec fn chain(t: Seq<ResolvedTrack>, g: int) -> bool {
    &&& t.len() > 0 ==> t[0].offset == 0
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() ==> (#[trigger] t[j]).offset == (#[trigger] t[i]).offset + t[i].size + g
}
impl GridLayout {
//@ extract crates/textual/src/layouts/grid.rs fn GridLayout::resolve_tracks
//@ ret res
//@ sub sizes\s*\.into_iter\(\)\s*\.map\(\|size\| \{(.*?)track\s*\}\)\s*\.collect\(\) ==> let mut out: Vec<ResolvedTrack> = Vec::new(); for q in 0..sizes.len() { let size = sizes[q]; \1 out.push(track); } out
//@ sub let mut offset = 0; ==> let mut offset: i32 = 0; proof { lemma_sizes_small(specs@, count as int, available as int, gutter as int); }
//@ nloops 1
//@ contract
    requires inputs_ok(specs@, count as int, available as int, gutter as int),
    ensures res@.len() == count, chain(res@, gutter as int),
        forall|i: int| 0 <= i < count ==> (#[trigger] res@[i]).size == max_(1, track_size(track_seq(specs@, count as int), space(available as int, count as int, gutter as int), i)),
//@ loop 1
    invariant 0 <= gutter <= 0x10000, sizes@.len() == count <= 0x100, out@.len() == q,
        forall|i: int| 0 <= i < sizes@.len() ==> 1 <= #[trigger] sizes@[i] <= 0x40_0000,
        offset == (if q == 0 { 0int } else { out@[q - 1].offset + out@[q - 1].size + gutter }), 0 <= offset <= 0x41_0000 * q, chain(out@, gutter as int),
        forall|i: int| 0 <= i < q ==> (#[trigger] out@[i]).size == sizes@[i],
//@ end

//@ extract crates/textual/src/layouts/grid.rs fn GridLayout::resolve_tracks_with_content
//@ ret res
//@ sub let total_content: i32 = content_sizes\.iter\(\)\.sum\(\); ==> let total_content: i32 = sum_i32(content_sizes);
//@ sub content_sizes\.to_vec\(\) ==> copy_i32(content_sizes)
//@ sub content_sizes\s*\.iter\(\)\s*\.map\(\|&size\| \{(.*?)\}\)\s*\.collect\(\) ==> let mut scaled: Vec<i32> = Vec::new(); for w in 0..content_sizes.len() { let size = content_sizes[w]; proof { lemma_isum_ge(content_sizes@, w as int, content_sizes@.len() as int); if total_content > 0 { lemma_scale(size as int, available_for_tracks as int, total_content as int); } } let item = {\1}; scaled.push(item); } scaled
//@ sub sizes\s*\.into_iter\(\)\s*\.map\(\|size\| \{(.*?)track\s*\}\)\s*\.collect\(\) ==> let mut out: Vec<ResolvedTrack> = Vec::new(); for q in 0..sizes.len() { let size = sizes[q]; \1 out.push(track); } out
//@ sub let mut offset = 0; ==> let mut offset: i32 = 0;
//@ sub let total_gutter = ==> proof { lemma_gutter(count as int, gutter as int); } let total_gutter =
//@ nloops 2
//@ contract
    requires inputs_ok(specs@, count as int, available as int, gutter as int), content_sizes@.len() == 0 || content_sizes@.len() == count,
        forall|i: int| 0 <= i < content_sizes@.len() ==> 0 <= #[trigger] content_sizes@[i] <= 0xffff,
    ensures res@.len() == count, chain(res@, gutter as int), forall|i: int| 0 <= i < count ==> (#[trigger] res@[i]).size >= 1,
        specs@.len() == 0 && content_sizes@.len() > 0 ==> forall|i: int| 0 <= i < count ==> (#[trigger] res@[i]).size == max_(1, content_size(content_sizes@, available - (count - 1) * gutter, i)),
//@ loop 1
    invariant scaled@.len() == w, total_content == isum(content_sizes@, content_sizes@.len() as int), 0 <= total_content <= 0x100_0000, -0x200_0000 <= available_for_tracks < total_content, content_sizes@.len() <= 0x100,
        forall|i: int| 0 <= i < content_sizes@.len() ==> 0 <= #[trigger] content_sizes@[i] <= 0xffff,
        forall|i: int| 0 <= i < w ==> (#[trigger] scaled@[i]) == (if total_content == 0 { 1int } else { tdiv(content_sizes@[i] * available_for_tracks, total_content as int) }),
        forall|i: int| 0 <= i < w ==> -0x200_0000 <= (#[trigger] scaled@[i]) <= 0xffff,
//@ loop 2
    invariant 0 <= gutter <= 0x10000, sizes@.len() == count <= 0x100, out@.len() == q,
        forall|i: int| 0 <= i < sizes@.len() ==> #[trigger] sizes@[i] <= 0x40_0000,
        offset == (if q == 0 { 0int } else { out@[q - 1].offset + out@[q - 1].size + gutter }), 0 <= offset <= 0x41_0000 * q, chain(out@, gutter as int),
        forall|i: int| 0 <= i < q ==> (#[trigger] out@[i]).size == max_(1, sizes@[i] as int),
//@ end
}
/// the content size when everything fits, else its proportion of the space (truncated)
pub open spec fn content_size(c: Seq<i32>, avail: int, i: int) -> int { if isum(c, c.len() as int) <= avail { c[i] as int } else if isum(c, c.len() as int) == 0 { 1 } else { tdiv(c[i] * avail, isum(c, c.len() as int)) } }
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn isum(c: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { isum(c, n - 1) + c[n - 1] } }
fn sum_i32(c: &[i32]) -> (r: i32)
    requires c@.len() <= 0x100, forall|i: int| 0 <= i < c@.len() ==> 0 <= #[trigger] c@[i] <= 0xffff,
    ensures r == isum(c@, c@.len() as int), 0 <= r <= 0x100_0000,
{
    let mut s: i32 = 0;
    for i in 0..c.len() invariant c@.len() <= 0x100, s == isum(c@, i as int), 0 <= s <= 0xffff * i, forall|k: int| 0 <= k < c@.len() ==> 0 <= #[trigger] c@[k] <= 0xffff { s = s + c[i]; }
    s
}
fn copy_i32(c: &[i32]) -> (r: Vec<i32>) ensures r@ == c@
{
    let mut v = Vec::new();
    for i in 0..c.len() invariant v@ == c@.take(i as int) { v.push(c[i]); proof { assert(c@.take(i + 1) =~= c@.take(i as int).push(c@[i as int])); } }
    proof { assert(c@.take(c@.len() as int) =~= c@); }
    v
}
proof fn lemma_isum_ge(c: Seq<i32>, i: int, n: int)
    requires 0 <= i < n <= c.len(), forall|k: int| 0 <= k < c.len() ==> 0 <= #[trigger] c[k] <= 0xffff,
    ensures isum(c, n) >= c[i], isum(c, n) >= 0,
    decreases n,
{
    if i < n - 1 { lemma_isum_ge(c, i, n - 1); assert(c[n - 1] >= 0); } else { if n > 1 { lemma_isum_ge(c, 0, n - 1); } assert(isum(c, n) == isum(c, n - 1) + c[n - 1]); }
}
proof fn lemma_scale(s: int, a: int, t: int)
    requires 0 <= s <= 0xffff, t > 0, s <= t, -0x200_0000 <= a < t, t <= 0x100_0000,
    ensures i64::MIN < s * a < i64::MAX, s * a >= 0 ==> 0 <= tdiv(s * a, t) <= s, s * a < 0 ==> a <= tdiv(s * a, t) <= 0,
{
    assert(-0x200_0000 * 0xffff <= s * a <= 0x100_0000 * 0xffff) by (nonlinear_arith) requires 0 <= s <= 0xffff, -0x200_0000 <= a < 0x100_0000;
    if s * a >= 0 {
        let q = (s * a) / t;
        lemma_fundamental_div_mod(s * a, t);
        assert(0 <= q <= s) by (nonlinear_arith) requires s * a == t * q + (s * a) % t, 0 <= (s * a) % t < t, s * a >= 0, a < t, t > 0, s >= 0;
    } else {
        let q = (-(s * a)) / t;
        lemma_fundamental_div_mod(-(s * a), t);
        assert(0 <= q <= -a) by (nonlinear_arith) requires -(s * a) == t * q + (-(s * a)) % t, 0 <= (-(s * a)) % t < t, s * a < 0, t > 0, 0 <= s <= t;
    }
}
proof fn lemma_sizes_small(specs: Seq<Scalar>, count: int, available: int, gutter: int)
    requires inputs_ok(specs, count, available, gutter),
    ensures forall|i: int| 0 <= i < count ==> #[trigger] track_size(track_seq(specs, count), space(available, count, gutter), i) <= 0x40_0000,
{
    let t = track_seq(specs, count); let av = space(available, count, gutter);
    if count > 0 {
        lemma_gutter(count, gutter); lemma_fixed(t, av, count);
        assert forall|i: int| 0 <= i < count implies #[trigger] track_size(t, av, i) <= 0x40_0000 by {
            lemma_cum(t, true, 0, count); lemma_cum(t, false, 0, count); lemma_cum(t, false, count, count);
            if is_fr(t[i]) && cum(t, true, count) > 0 { lemma_share_small(t, true, rest(t, av), i); }
            if is_auto(t[i]) && cum(t, true, count) <= 0 {
                if cum(t, false, count) == 0 { lemma_no_auto(t, i, count); }
                lemma_share_small(t, false, rest(t, av), i);
            }
        }
    }
}
proof fn lemma_gutter(count: int, gutter: int)
    requires 0 <= count <= 0x100, 0 <= gutter <= 0x10000,
    ensures count > 0 ==> 0 <= (count - 1) * gutter <= 0x100_0000,
{
    if count > 0 { assert(0 <= (count - 1) * gutter <= 0x100 * 0x10000) by (nonlinear_arith) requires 1 <= count <= 0x100, 0 <= gutter <= 0x10000; }
}
proof fn lemma_no_auto(t: Seq<Scalar>, k: int, n: int)
    requires 0 <= k < n <= t.len(), cum(t, false, n) == 0, forall|s: Scalar| #![trigger weight(s)] 0 <= weight(s) <= 0x4_0000,
    ensures !is_auto(t[k]),
    decreases n,
{
    lemma_cum(t, false, k + 1, n); lemma_cum(t, false, 0, k); lemma_cum(t, false, k, k + 1);
    assert(cum(t, false, k + 1) == cum(t, false, k) + wt(t[k], false));
}
proof fn lemma_mod_range(m: int, t: int)
    requires t > 0,
    ensures 0 <= m - (m / t) * t < t,
{
    lemma_fundamental_div_mod(m, t);
    assert(m - (m / t) * t == m % t) by (nonlinear_arith) requires m == t * (m / t) + m % t;
}
proof fn lemma_rem_zero(t: int, r: int)
    requires t > 0,
    ensures rem_ok(0, 1, r * 0, t), lowest(0, 1),
{
    lemma_one_lowest();
    assert(r * 0 == 0 && 0 * t == 0) by (nonlinear_arith);
    assert(0int / t == 0) by (nonlinear_arith) requires t > 0;
}
/// an empty specification means 1fr everywhere, so the weights add up to something
proof fn lemma_first(t: Seq<Scalar>, n: int)
    requires 0 < n <= t.len(), weight(t[0]) == 1000, is_fr(t[0]), forall|s: Scalar| #![trigger weight(s)] 0 <= weight(s) <= 0x4_0000,
    ensures cum(t, true, n) >= 1000,
    decreases n,
{
    if n > 1 { lemma_first(t, n - 1); assert(weight(t[n - 1]) >= 0); }
    else { assert(cum(t, true, 1) == cum(t, true, 0) + wt(t[0], true)); }
}
/// a share fits in an i32
proof fn lemma_share_small(t: Seq<Scalar>, fr: bool, r: int, i: int)
    requires 0 <= i < t.len(), cum(t, fr, t.len() as int) > 0, -0x200_0000 <= r <= 0x200_0000, forall|s: Scalar| #![trigger weight(s)] 0 <= weight(s) <= 0x4_0000,
    ensures -0x400_0000 <= share(t, fr, r, i) <= 0x400_0000, share(t, fr, r, i) <= max_(r, 0),
{
    theorem_within_one_cell(t, fr, r, i);
    let T = cum(t, fr, t.len() as int); let w = wt(t[i], fr); let s = share(t, fr, r, i);
    lemma_cum(t, fr, i, i + 1); lemma_cum(t, fr, i + 1, t.len() as int); lemma_cum(t, fr, 0, i);
    assert(0 <= w <= T);
    assert(-0x200_0000 * T <= r * w <= 0x200_0000 * T) by (nonlinear_arith) requires 0 <= w <= T, -0x200_0000 <= r <= 0x200_0000;
    if r >= 0 { assert(s <= r) by (nonlinear_arith) requires s * T - r * w < T, 0 <= w <= T, r >= 0, T > 0; }
    else { assert(s <= 0) by (nonlinear_arith) requires s * T - r * w < T, 0 <= w, r < 0, T > 0; }
    assert(-0x400_0000 <= s <= 0x400_0000) by (nonlinear_arith) requires s * T - r * w < T, s * T - r * w > -T, -0x200_0000 * T <= r * w, r * w <= 0x200_0000 * T, T > 0;
}
}
