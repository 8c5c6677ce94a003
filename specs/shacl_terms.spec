// ---- kinds of terms: trusted contracts of the RDF term conversions ----
@remap-path S::term_as_iri term_as_iri
@remap-path S::term_as_literal term_as_literal
@remap-path S::term_as_sliteral term_as_sliteral
@remap-path S::term_as_subject term_as_subject
@remap-path S::object_as_term object_as_term
@subst-type S::IRI IriS
#[verifier::external_body] pub struct Lit { x: u64 }
#[verifier::external_body] pub struct Subj { x: u64 }
#[verifier::external_body] pub struct Text { x: u64 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn t_bnode(t: Term) -> bool;
pub uninterp spec fn t_iri(t: Term) -> bool;
pub uninterp spec fn t_lit(t: Term) -> bool;
/// the string of a node (IRI, lexical form or label)
pub uninterp spec fn node_text(t: Term) -> Text;
pub uninterp spec fn iri_of_term(t: Term) -> IriS;
pub uninterp spec fn lit_of_term(t: Term) -> Lit;
pub uninterp spec fn iri_text(i: IriS) -> Text;
pub uninterp spec fn lit_text(l: Lit) -> Text;
/// number of characters (Unicode scalar values)
pub open spec fn n_chars(t: Text) -> nat { t@.len() }
pub uninterp spec fn n_bytes(t: Text) -> nat;
pub uninterp spec fn slit_of_term(t: Term) -> Option<ConcreteLiteral>;
pub uninterp spec fn slit_cmp(a: ConcreteLiteral, b: ConcreteLiteral) -> Option<core::cmp::Ordering>;
pub uninterp spec fn subj_of(t: Term) -> Subj;
pub uninterp spec fn term_of(o: Object) -> Term;
#[verifier::external_body] pub proof fn axiom_kinds(t: Term) ensures !(t_bnode(t) && t_iri(t)), !(t_bnode(t) && t_lit(t)), !(t_iri(t) && t_lit(t)) { }
impl Term {
    #[verifier::external_body] pub fn is_blank_node(&self) -> (r: bool) ensures r == t_bnode(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_iri(&self) -> (r: bool) ensures r == t_iri(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_literal(&self) -> (r: bool) ensures r == t_lit(*self) { unimplemented!() }
    #[verifier::external_body] pub fn lexical_form(&self) -> (r: Text) ensures r == node_text(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn term_as_iri(t: &Term) -> (r: Result<IriS, ValidationError>) ensures r is Ok <==> t_iri(*t), r is Ok ==> r->Ok_0 == iri_of_term(*t) { unimplemented!() }
#[verifier::external_body] pub fn term_as_literal(t: &Term) -> (r: Result<Lit, ValidationError>) ensures r is Ok <==> t_lit(*t), r is Ok ==> r->Ok_0 == lit_of_term(*t) { unimplemented!() }
#[verifier::external_body] pub fn term_as_sliteral(t: &Term) -> (r: Result<ConcreteLiteral, ValidationError>) ensures r is Ok <==> slit_of_term(*t) is Some, r is Ok ==> Some(r->Ok_0) == slit_of_term(*t) { unimplemented!() }
#[verifier::external_body] pub fn term_as_subject(t: &Term) -> (r: Result<Subj, ValidationError>) ensures r is Ok <==> !t_lit(*t), r is Ok ==> r->Ok_0 == subj_of(*t) { unimplemented!() }
#[verifier::external_body] pub fn object_as_term(o: &Object) -> (r: Term) ensures r == term_of(*o) { unimplemented!() }
impl IriS {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &Text) ensures *r == iri_text(*self) { unimplemented!() }
}
impl Lit {
    #[verifier::external_body] pub fn lexical_form(&self) -> (r: &Text) ensures *r == lit_text(*self) { unimplemented!() }
}
impl Text {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &Text) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn vx_chars(&self) -> (r: &Vec<char>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == n_bytes(*self) { unimplemented!() }
}
impl ConcreteLiteral {
    #[verifier::external_body] pub fn partial_cmp(&self, o: &ConcreteLiteral) -> (r: Option<core::cmp::Ordering>) ensures r == slit_cmp(*self, *o) { unimplemented!() }
}
pub assume_specification [core::cmp::Ordering::is_ge] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Less);
pub assume_specification [core::cmp::Ordering::is_gt] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Greater);
pub assume_specification [core::cmp::Ordering::is_le] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Greater);
pub assume_specification [core::cmp::Ordering::is_lt] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Less);
