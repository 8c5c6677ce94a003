// ---- terms, shapes, reports: abstract values; trusted contracts of the RDF store and of the engine ----
@subst-type S::Term Term
@subst-type RDF::Term Term
@subst-type S Store
@subst-type RDF Store
@subst-type IRError ValidationError
@erase-generics ValueNodes FocusNodes Engine
@erase-method with_message self
@remap-path S::term_as_object term_as_object
@remap-path RDF::term_as_object term_as_object
@iter-via nodes vx_items
@iter-via vns vx_items
@map-ident value_nodes
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Term { x: u64 }
#[verifier::external_body] pub struct IriS { x: u64 }
#[verifier::external_body] #[derive(Debug)] pub struct Opaque { x: u64 }
pub type IriRef = Opaque; pub type NumericLiteral = Opaque; pub type XsdDateTime = Opaque; pub type LitLang = Opaque;
@subst-type Lang LitLang
@file rudof_rdf/src/rdf_core/term/literal/literal.rs
@type enum ConcreteLiteral derive=Debug
#[verifier::external_body] pub struct IriOrBlankNode { x: u64 }
@file rudof_rdf/src/rdf_core/term/triple.rs
@type enum Object
@fn Object::iri r
    ensures r == obj_of_iri($1),
@endfn
#[verifier::external_body] pub struct Severity { x: u64 }
#[verifier::external_body] pub struct SHACLPath { x: u64 }
#[verifier::external_body] #[derive(Debug)] pub struct ValidationError { x: u64 }
#[verifier::external_body] pub struct Store { x: u64 }
#[verifier::external_body] pub struct EngineX { x: u64 }
#[verifier::external_body] pub struct IRSchema { x: u64 }
#[verifier::external_body] pub struct IRComponent { x: u64 }
#[verifier::external_body] pub fn vx_opaque_string() -> String { unimplemented!() }
impl Clone for Term { #[verifier::external_body] fn clone(&self) -> (r: Term) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Object { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Object) -> bool { *self == *other } }
impl PartialEq for Object { #[verifier::external_body] fn eq(&self, other: &Object) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Term { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Term) -> bool { *self == *other } }
impl PartialEq for Term { #[verifier::external_body] fn eq(&self, other: &Term) -> (r: bool) { unimplemented!() } }
impl Clone for IriS { #[verifier::external_body] fn clone(&self) -> (r: IriS) ensures r == *self { unimplemented!() } }
impl Clone for Object { #[verifier::external_body] fn clone(&self) -> (r: Object) ensures r == *self { unimplemented!() } }
impl Clone for Severity { #[verifier::external_body] fn clone(&self) -> (r: Severity) ensures r == *self { unimplemented!() } }
impl Clone for SHACLPath { #[verifier::external_body] fn clone(&self) -> (r: SHACLPath) ensures r == *self { unimplemented!() } }
pub uninterp spec fn obj_of(t: Term) -> Object;
pub open spec fn obj_of_iri(i: IriS) -> Object { Object::Iri(i) }
pub uninterp spec fn iri_of(c: IRComponent) -> IriS;
#[verifier::external_body] pub fn term_as_object(t: &Term) -> (r: Result<Object, ValidationError>)
    ensures r is Ok, r->Ok_0 == obj_of(*t) { unimplemented!() }
impl IRComponent { #[verifier::external_body] pub fn into(&self) -> (r: IriS) ensures r == iri_of(*self) { unimplemented!() } }

// ---- focus nodes and their value nodes (enumerated in an arbitrary fixed order) ----
#[verifier::external_body] pub struct FocusNodes { x: u64 }
impl View for FocusNodes { type V = Seq<Term>; uninterp spec fn view(&self) -> Seq<Term>; }
impl FocusNodes {
    #[verifier::external_body] pub fn single(t: Term) -> (r: FocusNodes) ensures r@ == seq![t] { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: &Vec<Term>) ensures r@ == self@, r@.len() <= isize::MAX { unimplemented!() }
}
#[verifier::external_body] pub struct ValueNodes { x: u64 }
impl View for ValueNodes { type V = Seq<(Term, FocusNodes)>; uninterp spec fn view(&self) -> Seq<(Term, FocusNodes)>; }
impl ValueNodes {
    #[verifier::external_body] pub fn vx_entries(&self) -> (r: &Vec<(Term, FocusNodes)>) ensures r@ == self@ { unimplemented!() }
}

@file shacl/src/ir/shape_label_idx.rs
@type struct ShapeLabelIdx derive=Clone,Copy
@file shacl/src/validator/report/result.rs
@type struct ValidationResult drop=details,message
@drop-ident details message
@fn ValidationResult::new r
    ensures r.focus_node == $1, r.constraint_component == $2, r.severity == $3, r.path is None, r.value is None, r.source is None,
@endfn
@fn ValidationResult::with_path r
    ensures r == (ValidationResult { path: $1, ..self }),
@endfn
@fn ValidationResult::with_value r
    ensures r == (ValidationResult { value: $1, ..self }),
@endfn
@fn ValidationResult::with_source r
    ensures r == (ValidationResult { source: $1, ..self }),
@endfn
pub open spec fn opt_path(p: Option<&SHACLPath>) -> Option<SHACLPath> { match p { Some(x) => Some(*x), None => None } }
