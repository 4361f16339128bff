use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

verus! {

pub open spec fn divides(d: int, n: int) -> bool { d != 0 && exists|k: int| n == #[trigger] (k * d) }

proof fn lemma_div_lin(d: int, a: int, b: int, m: int)
    requires divides(d, a), divides(d, b),
    ensures divides(d, a + m * b),
{
    let k1 = choose|k: int| a == #[trigger] (k * d);
    let k2 = choose|k: int| b == #[trigger] (k * d);
    assert(a + m * b == (k1 + m * k2) * d) by (nonlinear_arith) requires a == k1 * d, b == k2 * d;
}

// common divisors of (a, b) are those of (b, a % b)
proof fn lemma_step(a: int, b: int)
    requires a >= 0, b > 0,
    ensures forall|d: int| (divides(d, a) && divides(d, b)) <==> (divides(d, b) && divides(d, a % b)),
{
    let q = a / b; let r = a % b;
    assert(a == b * q + r) by { lemma_fundamental_div_mod(a, b); }
    assert forall|d: int| (divides(d, a) && divides(d, b)) implies divides(d, r) by {
        lemma_div_lin(d, a, b, -q);
        assert(a + (-q) * b == r) by (nonlinear_arith) requires a == b * q + r;
    }
    assert forall|d: int| (divides(d, b) && divides(d, r)) implies divides(d, a) by {
        lemma_div_lin(d, r, b, q);
        assert(r + q * b == a) by (nonlinear_arith) requires a == b * q + r;
    }
}

pub open spec fn common(d: int, a: int, b: int) -> bool { divides(d, a) && divides(d, b) }

/// greatest common divisor, by its universal property
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    g > 0 && common(g, a, b) && forall|d: int| common(d, a, b) ==> #[trigger] divides(d, g)
}

pub open spec fn lowest(n: int, d: int) -> bool { forall|c: int| c > 1 ==> !#[trigger] common(c, n, d) }

/// the fraction n/d as a value, compared by cross multiplication
pub open spec fn same(n1: int, d1: int, n2: int, d2: int) -> bool { n1 * d2 == n2 * d1 }

proof fn lemma_self(a: int)
    requires a != 0,
    ensures divides(a, a), divides(a, 0),
{
    assert(a == 1 * a); assert(0 == 0 * a) by (nonlinear_arith);
}

proof fn lemma_exact_div(n: int, g: int) -> (q: int)
    requires g > 0, divides(g, n),
    ensures q * g == n, n / g == q, (-n) / g == -q,
{
    let k = choose|k: int| n == #[trigger] (k * g);
    assert(n / g == k) by { lemma_div_multiples_vanish(k, g); assert(n == g * k) by (nonlinear_arith) requires n == k * g; }
    assert((-n) / g == -k) by { lemma_div_multiples_vanish(-k, g); assert(-n == g * (-k)) by (nonlinear_arith) requires n == k * g; }
    k
}

// n/g and d/g have no common factor when g is the gcd
proof fn lemma_coprime(n: int, d: int, g: int, n1: int, d1: int)
    requires is_gcd(g, n, d), n == n1 * g, d == d1 * g, d != 0,
    ensures lowest(n1, d1),
{
    assert forall|c: int| c > 1 implies !#[trigger] common(c, n1, d1) by {
        if common(c, n1, d1) {
            let a = choose|k: int| n1 == #[trigger] (k * c);
            let b = choose|k: int| d1 == #[trigger] (k * c);
            assert(n == a * (c * g)) by (nonlinear_arith) requires n == n1 * g, n1 == a * c;
            assert(d == b * (c * g)) by (nonlinear_arith) requires d == d1 * g, d1 == b * c;
            assert(c * g != 0) by (nonlinear_arith) requires c > 1, g > 0;
            assert(common(c * g, n, d));
            assert(divides(c * g, g));
            let k = choose|k: int| g == #[trigger] (k * (c * g));
            assert(false) by (nonlinear_arith) requires g == k * (c * g), g > 0, c > 1;
        }
    }
}

proof fn lemma_signs(d: int, n: int)
    ensures divides(d, n) <==> divides(d, -n),
{
    if divides(d, n) { let k = choose|k: int| n == #[trigger] (k * d); assert(-n == (-k) * d) by (nonlinear_arith) requires n == k * d; }
    if divides(d, -n) { let k = choose|k: int| -n == #[trigger] (k * d); assert(n == (-k) * d) by (nonlinear_arith) requires -n == k * d; }
}

//@ extract crates/textual/src/fraction.rs fn gcd
//@ ret g
//@ contract
    requires a >= 0, b >= 0,
    ensures g >= 1, (a != 0 || b != 0) ==> is_gcd(g as int, a as int, b as int), (a == 0 && b == 0) ==> g == 1,
//@ start
    let ghost a0 = a as int; let ghost b0 = b as int;
//@ nloops 1
//@ loop 1
        invariant a >= 0, b >= 0, a0 >= 0, b0 >= 0,
            (a0 != 0 || b0 != 0) ==> (a != 0 || b != 0),
            (a0 == 0 && b0 == 0) ==> (a == 0 && b == 0),
            forall|d: int| common(d, a as int, b as int) <==> common(d, a0, b0),
        decreases b,
//@ loop_start 1
        proof { lemma_step(a as int, b as int); assert(a as int % b as int >= 0 && (a as int) % (b as int) < b) by (nonlinear_arith) requires a >= 0, b > 0; }
//@ after_loop 1
    proof {
        if a != 0 {
            lemma_self(a as int);
            assert(common(a as int, a as int, 0));
            assert forall|d: int| common(d, a0, b0) implies #[trigger] divides(d, a as int) by { assert(common(d, a as int, b as int)); }
        }
    }
//@ end

pub assume_specification[ i64::abs ](x: i64) -> (r: i64)
    requires x > i64::MIN,
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@ extract crates/textual/src/fraction.rs struct Fraction
//@ end

impl Copy for Fraction {}
impl Clone for Fraction { fn clone(&self) -> (r: Self) ensures r == *self { *self } }

impl Fraction {
    pub closed spec fn n(&self) -> int { self.num as int }
    pub closed spec fn d(&self) -> int { self.den as int }
    /// representation invariant: positive denominator, lowest terms
    pub open spec fn wf(&self) -> bool { self.d() > 0 && lowest(self.n(), self.d()) }
    /// and no numerator at the very bottom of the range
    pub open spec fn neg_ok(&self) -> bool { self.n() > i64::MIN }

    //@ extract crates/textual/src/fraction.rs const ZERO
    //@ end

//@ extract crates/textual/src/fraction.rs fn Fraction::new
//@ ret r
//@ contract
    requires num > i64::MIN, den > i64::MIN,
    ensures r.wf(), r.neg_ok(),
        den == 0 ==> r.n() == 0 && r.d() == 1,
        den != 0 ==> same(r.n(), r.d(), num as int, den as int),
        r.d() <= (if den < 0 { -(den as int) } else if den == 0 { 1 } else { den as int }),
//@ start
    proof {
        lemma_one_lowest();
        assert forall|s: int| s == 1 || s == -1 implies #[trigger] (s * (num as int)) == (if s == 1 { num as int } else { -(num as int) }) by { if s == 1 { assert(1 * (num as int) == num && 1 * (den as int) == den); } else { assert((-1) * (num as int) == -(num as int) && (-1) * (den as int) == -(den as int)); } }
        assert forall|s: int| s == 1 || s == -1 implies #[trigger] (s * (den as int)) == (if s == 1 { den as int } else { -(den as int) }) by { if s == 1 { assert(1 * (num as int) == num && 1 * (den as int) == den); } else { assert((-1) * (num as int) == -(num as int) && (-1) * (den as int) == -(den as int)); } }
        if den != 0 {
            let an = if num < 0 { -(num as int) } else { num as int };
            let ad = if den < 0 { -(den as int) } else { den as int };
            assert forall|g: int| #[trigger] is_gcd(g, an, ad) implies reduced_ok(g, num as int, den as int) by {
                lemma_signs(g, num as int); lemma_signs(g, den as int);
                assert forall|d: int| common(d, num as int, den as int) <==> common(d, an, ad) by { lemma_signs(d, num as int); lemma_signs(d, den as int); }
                let n1 = lemma_exact_div(num as int, g);
                let d1 = lemma_exact_div(den as int, g);
                assert(is_gcd(g, num as int, den as int)) by {
                    assert(common(g, an, ad));
                    assert(common(g, num as int, den as int));
                    assert forall|d: int| common(d, num as int, den as int) implies #[trigger] divides(d, g) by { assert(common(d, an, ad)); }
                }
                lemma_coprime(num as int, den as int, g, n1, d1);
                assert(lowest(n1, d1));
                assert(lowest(-n1, -d1)) by {
                    assert forall|c: int| c > 1 implies !#[trigger] common(c, -n1, -d1) by {
                        lemma_signs(c, n1); lemma_signs(c, d1); assert(!common(c, n1, d1));
                    }
                }
                assert(d1 != 0) by (nonlinear_arith) requires d1 * g == den, den != 0;
                assert(den > 0 ==> d1 > 0) by (nonlinear_arith) requires d1 * g == den, g > 0;
                assert(den < 0 ==> d1 < 0) by (nonlinear_arith) requires d1 * g == den, g > 0;
                assert(n1 * (den as int) == (num as int) * d1) by (nonlinear_arith) requires n1 * g == num, d1 * g == den;
                assert(ad >= (if d1 < 0 { -d1 } else { d1 })) by (nonlinear_arith) requires d1 * g == den, g >= 1, ad == (if den < 0 { -(den as int) } else { den as int });
                assert(an >= (if n1 < 0 { -n1 } else { n1 })) by (nonlinear_arith) requires n1 * g == num, g >= 1, an == (if num < 0 { -(num as int) } else { num as int });
                assert((-n1) * (den as int) == (num as int) * (-d1)) by (nonlinear_arith) requires n1 * (den as int) == (num as int) * d1;
                assert(n1 * g == num && d1 * g == den);
                assert(rust_div(num as int, g) == n1 && rust_div(-(num as int), g) == -n1 && rust_div(den as int, g) == d1 && rust_div(-(den as int), g) == -d1) by {
                    assert((-n1) * g == -(num as int)) by (nonlinear_arith) requires n1 * g == num;
                    assert((-d1) * g == -(den as int)) by (nonlinear_arith) requires d1 * g == den;
                    lemma_rust_div(num as int, g, n1); lemma_rust_div(-(num as int), g, -n1); lemma_rust_div(den as int, g, d1); lemma_rust_div(-(den as int), g, -d1);
                }
            }
        }
    }
//@ end

//@ extract crates/textual/src/fraction.rs fn Fraction::floor
//@ ret r
//@ contract
    requires self.wf(), self.n() - self.d() >= i64::MIN,
    ensures r == self.n() / self.d(), r * self.d() <= self.n() < (r + 1) * self.d(),
//@ start
    proof {
        let n = self.num as int; let d = self.den as int;
        if n >= 0 {
            lemma_fundamental_div_mod(n, d);
            assert((n / d) * d <= n < (n / d + 1) * d) by (nonlinear_arith) requires n == d * (n / d) + n % d, 0 <= n % d < d;
        } else {
            // truncated division of n - d + 1 (negative or zero) is the floor of n / d
            let m = d - 1 - n;
            lemma_fundamental_div_mod(m, d);
            let q = m / d;
            assert((-q) * d <= n < (-q + 1) * d && n == (-q) * d + (n + q * d) && 0 <= n + q * d < d) by (nonlinear_arith) requires m == d * q + m % d, 0 <= m % d < d, m == d - 1 - n;
            lemma_fundamental_div_mod_converse(n, d, -q, n + q * d);
        }
    }
//@ end

//@ extract crates/textual/src/fraction.rs fn Fraction::fract
//@ ret r
//@ contract
    requires self.wf(), self.n() - self.d() > i64::MIN,
    ensures r.wf(), r.neg_ok(), 0 <= r.n() < r.d(), r.d() <= self.d(),
        // floor + fract is the original value
        same(r.n(), r.d(), self.n() - (self.n() / self.d()) * self.d(), self.d()),
//@ start
    proof {
        let n = self.num as int; let d = self.den as int;
        let f = n / d; let t = n - f * d;
        lemma_fundamental_div_mod(n, d);
        assert(0 <= t < d && n - d <= f * d <= n) by (nonlinear_arith) requires n == d * f + n % d, 0 <= n % d < d, t == n - f * d;
        assert forall|rn: int, rd: int| rd > 0 && #[trigger] same(rn, rd, t, d) implies 0 <= rn < rd by {
            assert(0 <= rn < rd) by (nonlinear_arith) requires rn * d == t * rd, 0 <= t < d, rd > 0;
        }
    }
//@ end

//@ extract crates/textual/src/fraction.rs fn Fraction::mul_ratio
//@ ret r
//@ contract
    requires self.wf(), i64::MIN < self.n() * num <= i64::MAX, i64::MIN < self.d() * den <= i64::MAX,
    ensures r.wf(), r.neg_ok(), den != 0 ==> same(r.n(), r.d(), self.n() * num, self.d() * den), den == 0 ==> r.n() == 0 && r.d() == 1,
//@ start
    proof { assert(den != 0 ==> self.den * den != 0) by (nonlinear_arith) requires self.den > 0; assert(den == 0 ==> self.den * den == 0) by (nonlinear_arith); }
//@ end

//@ extract crates/textual/src/fraction.rs fn Add for Fraction::add
//@ ret r
//@ contract
    requires self.wf(), rhs.wf(),
        i64::MIN < self.n() * rhs.d() <= i64::MAX, i64::MIN < rhs.n() * self.d() <= i64::MAX,
        i64::MIN < self.n() * rhs.d() + rhs.n() * self.d() <= i64::MAX, self.d() * rhs.d() <= i64::MAX,
    ensures r.wf(), r.neg_ok(), same(r.n(), r.d(), self.n() * rhs.d() + rhs.n() * self.d(), self.d() * rhs.d()), r.d() <= self.d() * rhs.d(),
//@ start
    proof { assert(self.den * rhs.den > 0) by (nonlinear_arith) requires self.den > 0, rhs.den > 0; }
//@ end

//@ extract crates/textual/src/fraction.rs fn Sub for Fraction::sub
//@ ret r
//@ contract
    requires self.wf(), rhs.wf(),
        i64::MIN < self.n() * rhs.d() <= i64::MAX, i64::MIN < rhs.n() * self.d() <= i64::MAX,
        i64::MIN < self.n() * rhs.d() - rhs.n() * self.d() <= i64::MAX, self.d() * rhs.d() <= i64::MAX,
    ensures r.wf(), r.neg_ok(), same(r.n(), r.d(), self.n() * rhs.d() - rhs.n() * self.d(), self.d() * rhs.d()),
//@ start
    proof { assert(self.den * rhs.den > 0) by (nonlinear_arith) requires self.den > 0, rhs.den > 0; }
//@ end

//@ extract crates/textual/src/fraction.rs fn Mul for Fraction::mul
//@ ret r
//@ contract
    requires self.wf(), rhs.wf(), i64::MIN < self.n() * rhs.n() <= i64::MAX, self.d() * rhs.d() <= i64::MAX,
    ensures r.wf(), r.neg_ok(), same(r.n(), r.d(), self.n() * rhs.n(), self.d() * rhs.d()),
//@ start
    proof { assert(self.den * rhs.den > 0) by (nonlinear_arith) requires self.den > 0, rhs.den > 0; }
//@ end
}

/// what division by the gcd must deliver (only a trigger wrapper for the facts above)
pub open spec fn rust_div(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }

proof fn lemma_rust_div(n: int, g: int, q: int)
    requires g > 0, q * g == n,
    ensures rust_div(n, g) == q,
{
    if n >= 0 { assert(n == g * q) by (nonlinear_arith) requires q * g == n; lemma_div_multiples_vanish(q, g); }
    else { assert(-n == g * (-q)) by (nonlinear_arith) requires q * g == n; lemma_div_multiples_vanish(-q, g); }
}

pub open spec fn reduced_ok(g: int, n: int, d: int) -> bool {
    let n1 = rust_div(n, g); let d1 = rust_div(d, g);
    &&& rust_div(-n, g) == -n1 && rust_div(-d, g) == -d1
    &&& d1 != 0 && (d > 0 ==> d1 > 0) && (d < 0 ==> d1 < 0)
    &&& lowest(n1, d1) && lowest(-n1, -d1)
    &&& n1 * d == n * d1 && (-n1) * d == n * (-d1)
    &&& (if d1 < 0 { -d1 } else { d1 }) <= (if d < 0 { -d } else { d })
    &&& (if n1 < 0 { -n1 } else { n1 }) <= (if n < 0 { -n } else { n })
}

proof fn lemma_one_lowest()
    ensures lowest(0, 1),
{
    assert forall|c: int| c > 1 implies !#[trigger] common(c, 0, 1) by {
        if common(c, 0, 1) { let k = choose|k: int| 1 == #[trigger] (k * c); assert(false) by (nonlinear_arith) requires 1 == k * c, c > 1; }
    }
}

/// Canonical form: equal values have equal representations, so structural equality is value equality.
proof fn theorem_fraction_equality_is_value_equality(a: Fraction, b: Fraction)
    requires a.wf(), b.wf(),
    ensures (a.n() == b.n() && a.d() == b.d()) ==> same(a.n(), a.d(), b.n(), b.d()),
{
}

}
