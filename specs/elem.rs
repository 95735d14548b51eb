// Abstract element type: what the number type's operations return is left open.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct E { x: f64 }
pub uninterp spec fn e_neg(x: E) -> E;
pub uninterp spec fn e_conj(x: E) -> E;
pub uninterp spec fn e_zero() -> E;
pub uninterp spec fn e_one() -> E;
pub uninterp spec fn e_add(x: E, y: E) -> E;
pub uninterp spec fn e_mul(x: E, y: E) -> E;
impl core::ops::Neg for E {
    type Output = E;
    #[verifier::external_body]
    fn neg(self) -> (r: E)
        ensures r == e_neg(self),
    { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for E {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> E { e_neg(self) }
}
impl E {
    #[verifier::external_body]
    pub fn zero() -> (r: E)
        ensures r == e_zero(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn conj(self) -> (r: E)
        ensures r == e_conj(self),
    { unimplemented!() }
}
