use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

verus! {
// Floating point read as real arithmetic (an assumption stated in the evidence): F stands for f64/f32.
#[derive(Clone, Copy)]
pub struct F { pub v: Ghost<real> }
impl F {
    pub open spec fn r(self) -> real { self.v@ }
}
impl std::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> (r: F) { unimplemented!() } }
impl AddSpecImpl for F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F) -> bool { true } open spec fn add_spec(self, o: F) -> F { F { v: Ghost(self.v@ + o.v@) } } }
impl std::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> (r: F) { unimplemented!() } }
impl SubSpecImpl for F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F) -> bool { true } open spec fn sub_spec(self, o: F) -> F { F { v: Ghost(self.v@ - o.v@) } } }
impl std::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> (r: F) { unimplemented!() } }
impl MulSpecImpl for F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F) -> bool { true } open spec fn mul_spec(self, o: F) -> F { F { v: Ghost(rmul(self.v@, o.v@)) } } }
impl std::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> (r: F) { unimplemented!() } }
impl DivSpecImpl for F { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F) -> bool { o.v@ != 0real } open spec fn div_spec(self, o: F) -> F { F { v: Ghost(rdiv(self.v@, o.v@)) } } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { self.v@ == o.v@ } }
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> (r: Option<std::cmp::Ordering>) { unimplemented!() } }
impl PartialOrdSpecImpl for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F) -> Option<std::cmp::Ordering> { Some(if self.v@ < o.v@ { std::cmp::Ordering::Less } else if self.v@ == o.v@ { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }) } }
/// products and quotients are kept folded: most proofs only need both sides to be the same ones
#[verifier::opaque] pub open spec fn rmul(a: real, b: real) -> real { a * b }
#[verifier::opaque] pub open spec fn rdiv(a: real, b: real) -> real { a / b }
/// towards zero, as `as i32` does for values in range
pub open spec fn trunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
/// half away from zero, as f64::round does
pub open spec fn rnd(x: real) -> int { if x >= 0real { (x + 1real / 2real).floor() } else { -((-x + 1real / 2real).floor()) } }
pub open spec fn rmin(a: real, b: real) -> real { if a < b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a > b { a } else { b } }
pub open spec fn in_i32(x: int) -> bool { i32::MIN <= x <= i32::MAX }
impl F {
    #[verifier::external_body] pub fn of(x: i32) -> (r: F) ensures r.v@ == x as real { unimplemented!() }
    #[verifier::external_body] pub fn lit(x: i32) -> (r: F) ensures r.v@ == x as real { unimplemented!() }
    /// saturating, as the cast is
    #[verifier::external_body] pub fn to_i32(self) -> (r: i32) ensures r == cast(self.v@) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: F) ensures r.v@ == self.v@.floor() as real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F) ensures r.v@ == -((-self.v@).floor()) as real { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F) ensures r.v@ == rnd(self.v@) as real { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: F) -> (r: F) ensures r.v@ == rmin(self.v@, o.v@) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: F) -> (r: F) ensures r.v@ == rmax(self.v@, o.v@) { unimplemented!() }
}
/// `as i32`: towards zero, saturating
#[verifier::opaque] pub open spec fn cast(x: real) -> int { clampi(trunc(x)) }
proof fn lemma_cast_rounded() ensures forall|x: real| cast(#[trigger] rnd(x) as real) == clampi(rnd(x)) { reveal(cast); }
proof fn lemma_cast_whole(n: int) requires in_i32(n) ensures cast(n as real) == n { reveal(cast); }
pub open spec fn clampi(x: int) -> int { if x > i32::MAX { i32::MAX as int } else if x < i32::MIN { i32::MIN as int } else { x } }
fn imax(a: i32, b: i32) -> (r: i32) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
fn imin(a: i32, b: i32) -> (r: i32) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
}
