@include prelude.spec
@subst-type S::Term Term
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Term { x: u64 }
#[verifier::external_body] pub struct IriS { x: u64 }
#[verifier::external_body] #[derive(Debug)] pub struct ValidationError { x: u64 }
#[verifier::external_body] pub struct Store { x: u64 }
impl Clone for Term { #[verifier::external_body] fn clone(&self) -> (r: Term) ensures r == *self { unimplemented!() } }
impl Clone for IriS { #[verifier::external_body] fn clone(&self) -> (r: IriS) ensures r == *self { unimplemented!() } }
@include shacl_paths.spec
}
fn main() {}
