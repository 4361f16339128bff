use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

verus! {
//@ include REAL.rs
impl F {
    /// `as u8`: towards zero, saturating
    #[verifier::external_body] pub fn to_u8(self) -> (r: u8) ensures r == clamp8(trunc(self.v@)) { unimplemented!() }
}
pub open spec fn clamp8(x: int) -> int { if x > 255 { 255 } else if x < 0 { 0 } else { x } }
pub struct RgbaColor { pub dummy: u8 }
// ---------------------------------------------------------------- the colour circle, as CSS defines it
pub open spec fn least(a: real, b: real) -> real { if a < b { a } else { b } }
pub open spec fn most(a: real, b: real) -> real { if a > b { a } else { b } }
pub open spec fn twelve(k: real) -> real { if k >= 12real { k - 12real } else { k } }
/// how far a channel is above (1) or below (-1) the middle, k twelfths of a turn from where it starts
pub open spec fn wave(k: real) -> real { -most(-1real, least(least(k - 3real, 9real - k), 1real)) }
pub open spec fn chroma(s: real, l: real) -> real { s * least(l, 1real - l) }
/// a channel (n = 0 red, 8 green, 4 blue) of a colour
pub open spec fn channel(n: real, h: real, s: real, l: real) -> int { clamp8(rnd((l + chroma(s, l) * wave(twelve(n + h / 30real))) * 255real)) }
pub open spec fn at(t: real) -> real { if t < 1real / 3real { 12real * t + 8real } else { 12real * t - 4real } }
pub open spec fn around(t: real) -> real { if t < 0real { t + 1real } else if t > 1real { t - 1real } else { t } }
proof fn lemma_nothing(w: real) ensures 0real * w == 0real { assert(0real * w == 0real) by (nonlinear_arith); }
proof fn lemma_round(x: real) ensures trunc(rnd(x) as real) == rnd(x) {}
proof fn lemma_part(a: real, m: real, p: real, q: real, t: real)
    requires p == m - a, q == m + a,
    ensures p + (q - p) * 6real * t == m + a * (12real * t - 1real), p + (q - p) * (2real / 3real - t) * 6real == m + a * (7real - 12real * t), q == m + a * 1real, p == m + a * (-1real),
{
    assert(p + (q - p) * 6real * t == m + a * (12real * t - 1real)) by (nonlinear_arith) requires p == m - a, q == m + a;
    assert(p + (q - p) * (2real / 3real - t) * 6real == m + a * (7real - 12real * t)) by (nonlinear_arith) requires p == m - a, q == m + a;
}
impl RgbaColor {
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::hue_to_rgb
//@ ret r
//@ sub SIG:mut t: f32 ==> given: f32
//@ sub SIG:f32 ==> F
//@ sub? t \+= (.*?); ==> t = t + \1;
//@ sub? t -= (.*?); ==> t = t - \1;
//@ sub (\d+)\.0 ==> F::lit(\1)
//@ contract
    requires -1real / 3real <= given.v@ <= 4real / 3real,
    ensures r.v@ == (p.v@ + q.v@) / 2real + ((q.v@ - p.v@) / 2real) * wave(at(around(given.v@))),
//@ start
    let mut t = given;
    proof {
        reveal(rmul); reveal(rdiv);
        let (m, a) = ((p.v@ + q.v@) / 2real, (q.v@ - p.v@) / 2real);
        assert(p.v@ == m - a && q.v@ == m + a);
        lemma_part(a, m, p.v@, q.v@, around(t.v@));
    }
//@ end
//@ extract crates/tcss/src/types/color.rs fn RgbaColor::hsl_to_rgb
//@ ret r
//@ sub SIG:h: f32 ==> given: f32
//@ sub SIG:f32 ==> F
//@ sub let h = h / ==> let h = given /
//@ sub (\d+)\.5 ==> (F::lit(\1) + F::lit(1) / F::lit(2))
//@ sub (\d+)\.0 ==> F::lit(\1)
//@ sub \.round\(\) as u8 ==> .round().to_u8()
//@ contract
    requires 0real <= given.v@ <= 360real,
    ensures r.0 == channel(0real, given.v@, s.v@, l.v@), r.1 == channel(8real, given.v@, s.v@, l.v@), r.2 == channel(4real, given.v@, s.v@, l.v@),
//@ start
    proof {
        reveal(rmul); reveal(rdiv);
        let (s, l, h) = (s.v@, l.v@, given.v@);
        let a = chroma(s, l);
        let q = if l < 1real / 2real { l * (1real + s) } else { l + s - l * s };
        let p = 2real * l - q;
        assert(q == l + a) by (nonlinear_arith) requires a == s * least(l, 1real - l), q == if l < 1real / 2real { l * (1real + s) } else { l + s - l * s };
        assert((p + q) / 2real == l && (q - p) / 2real == a);
        assert(at(around(h / 360real + 1real / 3real)) == twelve(0real + h / 30real));
        assert(at(around(h / 360real)) == twelve(8real + h / 30real));
        assert(at(around(h / 360real - 1real / 3real)) == twelve(4real + h / 30real));
        if s == 0real {
            assert(a == 0real) by (nonlinear_arith) requires a == s * least(l, 1real - l), s == 0real;
            lemma_nothing(wave(twelve(0real + h / 30real))); lemma_nothing(wave(twelve(8real + h / 30real))); lemma_nothing(wave(twelve(4real + h / 30real)));
            lemma_round(l * 255real);
        }
        lemma_round((l + a * wave(twelve(0real + h / 30real))) * 255real);
        lemma_round((l + a * wave(twelve(8real + h / 30real))) * 255real);
        lemma_round((l + a * wave(twelve(4real + h / 30real))) * 255real);
    }
//@ end
}
}
fn main() {}
