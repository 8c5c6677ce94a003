#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Shape { x: u64 }
#[verifier::external_body] pub struct RefTyping { x: u64 }
impl View for RefTyping { type V = ISet<(Node, ShapeLabelIdx)>; uninterp spec fn view(&self) -> ISet<(Node, ShapeLabelIdx)>; }
impl RefTyping {
    #[verifier::external_body] pub fn contains(&self, p: &(Node, ShapeLabelIdx)) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    #[verifier::external_body] pub fn errors_for(&self, p: &(Node, ShapeLabelIdx)) -> Vec<RbeError> { unimplemented!() }
}
