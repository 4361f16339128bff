//! C05: exact rational arithmetic. Reference: cross multiplication in 128-bit integers.
use crate::src::Src;
use textual::Fraction;

fn small<S: Src>(s: &mut S) -> i64 {
    match s.range(0, 3) {
        0 => s.range(-12, 12),
        1 => s.range(-5000, 5000),
        2 => s.range(-40_000, 40_000),
        _ => s.range(-12, 12) * 1000,
    }
}
fn nz<S: Src>(s: &mut S) -> i64 {
    let v = small(s);
    s.assume(v != 0);
    v
}
fn g(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs().max(1) } else { g(b, a % b) }
}
/// canonical (numerator, denominator)
fn canon(n: i128, d: i128) -> (i128, i128) {
    let k = g(n, d) * d.signum();
    (n / k, d / k)
}
/// the value of a fraction, recovered through the public interface only
fn parts(f: &Fraction) -> (i128, i128) {
    let t = format!("{f:?}");
    let nums: Vec<i128> = t
        .split(|c: char| !(c.is_ascii_digit() || c == '-'))
        .filter_map(|x| x.parse().ok())
        .collect();
    if nums.len() == 2 {
        (nums[0], nums[1])
    } else {
        (0, 0)
    }
}
fn is(f: Fraction, n: i128, d: i128, what: &str) {
    let (cn, cd) = canon(n, d);
    let p = parts(&f);
    if p.1 != 0 {
        assert!(p == (cn, cd), "{what}: expected {cn}/{cd}, got {f:?}");
    }
    assert!(f == Fraction::new(cn as i64, cd as i64), "{what}: not equal to {cn}/{cd}: {f:?}");
    assert!(f.floor() as i128 == cn.div_euclid(cd), "{what}: floor of {f:?}");
}

pub fn c05_new<S: Src>(s: &mut S) {
    let (n, d) = (small(s), nz(s));
    s.note(&|| format!("{n}/{d}"));
    let f = Fraction::new(n, d);
    is(f, n as i128, d as i128, "construction");
    let k = nz(s);
    assert!(Fraction::new(n * k, d * k) == f, "scaled fraction differs (k={k})");
    // no common factor survives, sign in the numerator
    let p = parts(&f);
    if p.1 != 0 {
        assert!(p.1 > 0 && g(p.0, p.1).abs() == 1 || p == (0, 1), "not in lowest terms: {f:?}");
    }
    // n/d times d is n again; equality is value equality
    assert!(f.mul_ratio(d, 1) == Fraction::from(n), "n/d*d != n");
    let (n2, d2) = (small(s), nz(s));
    let e = Fraction::new(n2, d2);
    assert!((e == f) == (n as i128 * d2 as i128 == n2 as i128 * d as i128), "equality of {n}/{d} and {n2}/{d2}");
    assert!(Fraction::new(n, 0) == Fraction::ZERO, "zero denominator");
    assert!(Fraction::from(n as i32) == Fraction::new(n, 1), "from integer");
}

pub fn c05_floor<S: Src>(s: &mut S) {
    let (n, d) = (small(s), nz(s));
    s.note(&|| format!("{n}/{d}"));
    let f = Fraction::new(n, d);
    let (cn, cd) = canon(n as i128, d as i128);
    let fl = f.floor() as i128;
    assert!(fl == cn.div_euclid(cd), "floor({n}/{d}) = {fl}");
    let fr = f.fract();
    is(fr, cn.rem_euclid(cd), cd, "fractional part");
    assert!(Fraction::from(fl as i64) + fr == f, "floor + fract != value");
    assert!(fr.floor() == 0, "fractional part outside [0,1)");
    assert!(fr.fract() == fr, "fract is idempotent");
}

pub fn c05_ops<S: Src>(s: &mut S) {
    let (n1, d1, n2, d2) = (small(s), nz(s), small(s), nz(s));
    s.note(&|| format!("{n1}/{d1} op {n2}/{d2}"));
    let (a, b) = (Fraction::new(n1, d1), Fraction::new(n2, d2));
    let (a1, b1, a2, b2) = (n1 as i128, d1 as i128, n2 as i128, d2 as i128);
    is(a + b, a1 * b2 + a2 * b1, b1 * b2, "sum");
    is(a - b, a1 * b2 - a2 * b1, b1 * b2, "difference");
    is(a * b, a1 * a2, b1 * b2, "product");
    is(a.mul_ratio(n2, d2), a1 * a2, b1 * b2, "ratio");
    assert!(a - b + b == a && a + b == b + a, "laws");
}

/// large magnitudes: exact as long as the result is representable
pub fn c05_large<S: Src>(s: &mut S) {
    let (n, d) = (s.i64(), s.i64());
    s.assume(n > i64::MIN && d > i64::MIN && d != 0);
    s.note(&|| format!("{n}/{d}"));
    let (cn, cd) = canon(n as i128, d as i128);
    s.assume(cn - cd > i64::MIN as i128);
    let f = Fraction::new(n, d);
    let p = parts(&f);
    if p.1 != 0 {
        assert!(p == (cn, cd), "construction {n}/{d}: {f:?}");
    }
    assert!(f.floor() as i128 == cn.div_euclid(cd), "floor({n}/{d}) = {}", f.floor());
    let r = parts(&f.fract());
    if r.1 != 0 {
        assert!(r == canon(cn.rem_euclid(cd), cd), "fract({n}/{d}) = {r:?}");
    }
}

/// what layouts do: hand out a total in equal or weighted shares, carrying the remainder
pub fn c05_shares<S: Src>(s: &mut S) {
    let total = s.range(-500, 4000);
    let n = s.range(1, 40);
    s.note(&|| format!("{total} in {n} shares"));
    let portion = Fraction::new(total, n);
    let mut rem = Fraction::ZERO;
    let mut sum = 0;
    for i in 0..n {
        let raw = portion + rem;
        let sz = raw.floor();
        sum += sz;
        rem = raw.fract();
        let ideal = (total as i128 * (i as i128 + 1)).div_euclid(n as i128) as i64;
        assert!(sum == ideal, "after {} shares {sum}, expected {ideal}", i + 1);
    }
    assert!(sum == total && rem == Fraction::ZERO, "shares add to {sum} of {total}");
}
