// ---- RDF terms as the ShEx validator sees them: trusted contracts of strings, IRIs, language tags and literals ----
@subst-type String Text
@subst-type str Text
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] #[derive(Debug)] pub struct Text { x: u64 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Text { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Text) -> bool { self@ == other@ } }
impl PartialEq for Text { #[verifier::external_body] fn eq(&self, other: &Text) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub struct IriS { x: u64 }
pub uninterp spec fn iri_text(i: IriS) -> Text;
impl vstd::std_specs::cmp::PartialEqSpecImpl for IriS { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &IriS) -> bool { *self == *other } }
impl PartialEq for IriS { #[verifier::external_body] fn eq(&self, other: &IriS) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub proof fn axiom_iri(a: IriS, b: IriS) ensures (iri_text(a)@ == iri_text(b)@) <==> a == b { }
impl IriS { #[verifier::external_body] pub fn as_str(&self) -> (r: &Text) ensures *r == iri_text(*self) { unimplemented!() } }
#[verifier::external_body] #[derive(Debug)] pub struct Lang { x: u64 }
pub uninterp spec fn lang_text(l: Lang) -> Text;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Lang { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Lang) -> bool { *self == *other } }
impl PartialEq for Lang { #[verifier::external_body] fn eq(&self, other: &Lang) -> (r: bool) { unimplemented!() } }
impl Clone for Lang { #[verifier::external_body] fn clone(&self) -> (r: Lang) ensures r == *self { unimplemented!() } }
impl Lang { #[verifier::external_body] pub fn as_str(&self) -> (r: &Text) ensures *r == lang_text(*self) { unimplemented!() } }
#[verifier::external_body] #[derive(Debug)] pub struct IriRef { x: u64 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IriRef { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &IriRef) -> bool { *self == *other } }
impl PartialEq for IriRef { #[verifier::external_body] fn eq(&self, other: &IriRef) -> (r: bool) { unimplemented!() } }
/// same numeric value and type (the library's equality)
pub uninterp spec fn num_eq(a: NumericLiteral, b: NumericLiteral) -> bool;
impl vstd::std_specs::cmp::PartialEqSpecImpl for NumericLiteral { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &NumericLiteral) -> bool { num_eq(*self, *other) } }
impl PartialEq for NumericLiteral { #[verifier::external_body] fn eq(&self, other: &NumericLiteral) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] #[derive(Debug)] pub struct XsdDateTime { x: u64 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for XsdDateTime { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &XsdDateTime) -> bool { *self == *other } }
impl PartialEq for XsdDateTime { #[verifier::external_body] fn eq(&self, other: &XsdDateTime) -> (r: bool) { unimplemented!() } }
@file rudof_rdf/src/rdf_core/term/literal/literal.rs
@type enum ConcreteLiteral derive=Debug
#[verifier::external_body] pub struct IriOrBlankNode { x: u64 }
@file rudof_rdf/src/rdf_core/term/triple.rs
@type enum Object
/// lexical form of a literal
pub uninterp spec fn lex(l: ConcreteLiteral) -> Text;
impl ConcreteLiteral { #[verifier::external_body] pub fn lexical_form(&self) -> (r: Text) ensures r == lex(*self) { unimplemented!() } }
impl Text {
    #[verifier::external_body] pub fn starts_with(&self, p: &Text) -> (r: bool) ensures r == p@.is_prefix_of(self@) { unimplemented!() }
    /// the parts between separators
    #[verifier::external_body] pub fn split(&self, c: char) -> (r: Parts) ensures r@ == parts(self@, c) { unimplemented!() }
    #[verifier::external_body] pub fn eq_ignore_ascii_case(&self, o: &Text) -> (r: bool) ensures r == same_nocase(self@, o@) { unimplemented!() }
}
#[verifier::external_body] pub struct Parts { x: u64 }
impl View for Parts { type V = Seq<Text>; uninterp spec fn view(&self) -> Seq<Text>; }
impl Parts {
    #[verifier::external_body] pub fn collect<'a>(self) -> (r: Vec<&'a Text>) ensures r@.len() == self@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self@[k] { unimplemented!() }
}
pub uninterp spec fn parts(t: Seq<char>, c: char) -> Seq<Text>;
pub uninterp spec fn same_nocase(a: Seq<char>, b: Seq<char>) -> bool;
/// the language tag of a literal term
pub open spec fn tag_of(o: Object) -> Option<Lang> {
    match o { Object::Literal(ConcreteLiteral::StringLiteral { lang: Some(l), .. }) => Some(l), _ => None }
}
