// ---- facets of node constraints on data nodes ----
#[verifier::external_body] #[derive(Debug)] pub struct SErr { x: u64 }
pub type SchemaIRError = SErr;
pub type SchemaJsonError = Box<SErr>;
pub type CResult<T> = Result<T, Box<SErr>>;
#[verifier::external_body] pub fn serr() -> SErr { unimplemented!() }
#[verifier::external_body] pub fn vx_opaque_string() -> Text { unimplemented!() }
@erase-method map_err self
@erase-method ok_or_else fn:vx_ok_or
pub fn vx_ok_or<T>(o: Option<T>) -> (r: Result<T, Box<SErr>>) ensures r is Ok <==> o is Some, r is Ok ==> r->Ok_0 == o->Some_0 { match o { Some(x) => Ok(x), None => Err(Box::new(serr())) } }
@file shex_ast/src/ast/node_kind.rs
@type enum NodeKind
@file shex_ast/src/node.rs
@type struct Node
impl Text { #[verifier::external_body] pub fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() } }
pub uninterp spec fn subj_len(s: IriOrBlankNode) -> int;
impl IriOrBlankNode { #[verifier::external_body] pub fn length(&self) -> (r: usize) ensures r == subj_len(*self) { unimplemented!() } }
@remap-method as_ref vx_as_ref
pub trait VxAsRef<'a, O> { spec fn refd(&self, o: O) -> bool; fn vx_as_ref(&'a self) -> (r: O) ensures self.refd(r); }
impl<'a, T> VxAsRef<'a, Option<&'a T>> for Option<T> { open spec fn refd(&self, o: Option<&'a T>) -> bool { o == (match *self { Some(x) => Some(&x), None => None }) } fn vx_as_ref(&'a self) -> (r: Option<&'a T>) { match self { Some(x) => Some(x), None => None } } }
impl<'a, T> VxAsRef<'a, &'a T> for Box<T> { open spec fn refd(&self, o: &'a T) -> bool { *o == **self } fn vx_as_ref(&'a self) -> (r: &'a T) { self } }
/// number of characters of an IRI, of a blank node label, of a lexical form
pub open spec fn n_chars(o: Object) -> int {
    match o { Object::Iri(i) => iri_text(i)@.len() as int, Object::BlankNode(b) => b@.len() as int, Object::Literal(l) => lex(l)@.len() as int, _ => 0 }
}
impl Clone for IriS { #[verifier::external_body] fn clone(&self) -> (r: IriS) ensures r == *self { unimplemented!() } }
impl Clone for Object { #[verifier::external_body] fn clone(&self) -> (r: Object) ensures r == *self { unimplemented!() } }
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() } }
impl Clone for ConcreteLiteral { #[verifier::external_body] fn clone(&self) -> (r: ConcreteLiteral) ensures r == *self { unimplemented!() } }
@file rudof_rdf/src/rdf_core/term/triple.rs
@fn Object::length r
    requires !(self is Triple),
    ensures r == n_chars(*self),
@attrs #[verifier::exec_allows_no_decreases_clause]
@loop 0
    invariant $acc == $i,
@loop 1
    invariant $acc == $i,
@loop 2
    invariant $acc == $i,
@loop 3
    invariant $acc == $i,
@endfn
/// the literal with its lexical form read according to its datatype (ill-typed literals become WrongDatatypeLiteral); None when the datatype is no IRI
pub uninterp spec fn read_typed(t: Seq<char>, d: IriRef) -> Option<ConcreteLiteral>;
pub open spec fn typed(l: ConcreteLiteral) -> Option<ConcreteLiteral> {
    match l { ConcreteLiteral::DatatypeLiteral { lexical_form, datatype } => read_typed(lexical_form@, datatype), _ => Some(l) }
}
impl ConcreteLiteral {
    #[verifier::external_body] pub fn into_checked_literal(self) -> (r: Result<ConcreteLiteral, Box<SErr>>) ensures r is Ok <==> typed(self) is Some, r is Ok ==> Some(r->Ok_0) == typed(self) { unimplemented!() }
    #[verifier::external_body] pub fn datatype(&self) -> (r: IriRef) ensures r == lit_dt(*self) { unimplemented!() }
}
/// datatype of a literal and the IRI a reference stands for
pub uninterp spec fn lit_dt(l: ConcreteLiteral) -> IriRef;
pub uninterp spec fn ref_iri(r: IriRef) -> Option<IriS>;
impl IriRef { #[verifier::external_body] pub fn get_iri(&self) -> (r: Result<&IriS, Box<SErr>>) ensures r is Ok <==> ref_iri(*self) is Some, r is Ok ==> Some(*r->Ok_0) == ref_iri(*self) { unimplemented!() } }
@file rudof_rdf/src/rdf_core/term/literal/literal.rs
@fn ConcreteLiteral::numeric_value r
    ensures r == (match *self { ConcreteLiteral::NumericLiteral(n) => Some(n), _ => None }),
@endfn
@file rudof_rdf/src/rdf_core/term/triple.rs
/// the node as read by the datatype of its literal
pub open spec fn read_node(o: Object) -> Option<Object> {
    match o { Object::Literal(l) => match typed(l) { Some(m) => Some(Object::Literal(m)), None => None }, _ => Some(o) }
}
/// the number a node stands for
pub open spec fn num_of(o: Object) -> Option<NumericLiteral> {
    match read_node(o) { Some(Object::Literal(ConcreteLiteral::NumericLiteral(n))) => Some(n), _ => None }
}
@fn Object::numeric_value r
    ensures r == (match *self { Object::Literal(ConcreteLiteral::NumericLiteral(n)) => Some(n), _ => None }),
@endfn
@file shex_ast/src/node.rs
@fn Node::as_object r
    ensures *r == self.node,
@endfn
@fn Node::length r
    requires !(self.node is Triple),
    ensures r == n_chars(self.node),
@endfn
@fn Node::as_checked_object r
    ensures r is Ok <==> read_node(self.node) is Some, r is Ok ==> Some(r->Ok_0) == read_node(self.node),
@endfn
pub open spec fn kind_ok(k: NodeKind, o: Object) -> bool {
    match k { NodeKind::Iri => o is Iri, NodeKind::BNode => o is BlankNode, NodeKind::NonLiteral => o is Iri || o is BlankNode, NodeKind::Literal => o is Literal }
}
/// a literal, well-typed, of this datatype
pub open spec fn dt_ok(d: IriS, o: Object) -> bool {
    match o { Object::Literal(l) => match typed(l) { Some(m) => !(m is WrongDatatypeLiteral) && ref_iri(lit_dt(m)) == Some(d), None => false }, _ => false }
}
pub open spec fn is_le(o: Option<Ordering>) -> bool { o == Some(Ordering::Less) || o == Some(Ordering::Equal) }
pub open spec fn is_lt(o: Option<Ordering>) -> bool { o == Some(Ordering::Less) }
@file shex_ast/src/ast/cond_kind.rs
@fn check_node_node_kind r
    requires !($1.node is Triple),
    ensures r is Ok <==> kind_ok(*$2, $1.node),
@endfn
@fn check_literal_datatype r
    ensures r is Ok <==> dt_ok(*$2, Object::Literal(*$1)),
@endfn
pub proof fn lemma_typed_again(l: ConcreteLiteral) ensures typed(l) is Some ==> typed(typed(l)->Some_0) == typed(l) { axiom_typed(l); }
/// reading a literal by its datatype gives a literal that is not an unread one, or the literal itself when the datatype is unknown
#[verifier::external_body] pub proof fn axiom_typed(l: ConcreteLiteral) ensures typed(l) is Some ==> typed(typed(l)->Some_0) == typed(l) { }
@fn check_node_datatype r
    requires !($1.node is Triple),
    ensures r is Ok <==> dt_ok(*$2, $1.node),
@start
    let ghost nd = $1.node;
    proof { match nd { Object::Literal(l) => { lemma_typed_again(l); }, _ => {} } }
@endfn
@fn check_node_length r
    requires !($1.node is Triple),
    ensures r is Ok <==> n_chars($1.node) == $2,
@endfn
@fn check_node_min_length r
    requires !($1.node is Triple),
    ensures r is Ok <==> n_chars($1.node) >= $2,
@endfn
@fn check_node_max_length r
    requires !($1.node is Triple),
    ensures r is Ok <==> n_chars($1.node) <= $2,
@endfn
@fn check_node_min_inclusive r
    ensures r is Ok <==> num_of($1.node) is Some && is_le(num_cmp($2, num_of($1.node)->Some_0)),
@endfn
@fn check_node_min_exclusive r
    ensures r is Ok <==> num_of($1.node) is Some && is_lt(num_cmp($2, num_of($1.node)->Some_0)),
@endfn
@fn check_node_max_inclusive r
    ensures r is Ok <==> num_of($1.node) is Some && is_le(num_cmp(num_of($1.node)->Some_0, $2)),
@endfn
@fn check_node_max_exclusive r
    ensures r is Ok <==> num_of($1.node) is Some && is_lt(num_cmp(num_of($1.node)->Some_0, $2)),
@endfn
@fn check_node_total_digits r
    ensures r is Ok <==> num_of($1.node) is Some && tdig(num_of($1.node)->Some_0) is Some && tdig(num_of($1.node)->Some_0)->Some_0 <= $2,
@endfn
@fn check_node_fraction_digits r
    ensures r is Ok <==> num_of($1.node) is Some && fdig(num_of($1.node)->Some_0) is Some && fdig(num_of($1.node)->Some_0)->Some_0 <= $2,
@endfn
/// does the regular expression with this source compile, and does it match this text
pub uninterp spec fn re_valid(src: Seq<char>) -> bool;
pub uninterp spec fn re_matches(src: Seq<char>, t: Seq<char>) -> bool;
#[verifier::external_body] pub struct Re { x: u64 }
pub uninterp spec fn re_src(r: Re) -> Seq<char>;
#[verifier::external_body] pub fn vx_regex(src: &Text) -> (r: Result<Re, SErr>) ensures r is Ok <==> re_valid(src@), r is Ok ==> re_src(r->Ok_0) == src@ { unimplemented!() }
impl Re { #[verifier::external_body] pub fn is_match(&self, t: &Text) -> (r: bool) ensures r == re_matches(re_src(*self), t@) { unimplemented!() } }
@remap-path regex::Regex::new vx_regex
@remap-path Regex::new vx_regex
/// text patterns apply to: lexical form, blank node label, IRI
pub open spec fn pat_text(o: Object) -> Seq<char> {
    match o { Object::Literal(l) => lex(l)@, Object::BlankNode(b) => b@, Object::Iri(i) => iri_text(i)@, _ => Seq::empty() }
}
pub open spec fn pat_src(regex: Seq<char>, flags: Option<Seq<char>>) -> Seq<char> {
    match flags { Some(f) => if f.len() > 0 { seq!['(', '?'] + f + seq![')'] + regex } else { regex }, None => regex }
}
impl Text {
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_string(&self) -> (r: Text) ensures r == *self { unimplemented!() }
}
impl IriS { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: Text) ensures r@ == iri_text(*self)@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_show(t: &Text) -> (r: Text) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body] pub fn vx_text(s: &str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: Text, b: Text) -> (r: Text) ensures r@ == a@ + b@ { unimplemented!() }
@fn check_pattern r
    requires !($1.node is Triple),
    ensures r is Ok <==> re_valid(pat_src($2@, match $3 { Some(f) => Some(f@), None => None })) && re_matches(pat_src($2@, match $3 { Some(f) => Some(f@), None => None }), pat_text($1.node)),
@argty 2 &Text
@argty 3 Option<&Text>
@fmt
@start
    proof { reveal_strlit("(?"); reveal_strlit(")"); match $3 { Some(f) => { assert(seq!['(', '?'] =~= "(?"@); assert(seq![')'] =~= ")"@); }, None => {} } }
@endfn

// ---- what a condition admits ----
#[verifier::external_body] #[derive(Debug)] pub struct PrefixMap { x: u64 }
@file shex_ast/src/ast/cond_kind.rs
@type enum CondKind
#[verifier::external_body] pub struct SemanticActionContext { x: u64 }
#[verifier::external_body] pub struct Registry { x: u64 }
pub uninterp spec fn reg_of(c: SemanticActionContext) -> Option<Registry>;
pub uninterp spec fn act_ok(r: Registry, name: IriS, code: Option<Text>, c: SemanticActionContext) -> bool;
impl SemanticActionContext { #[verifier::external_body] pub fn registry(&self) -> (r: Option<&Registry>) ensures r == (match reg_of(*self) { Some(x) => Some(&x), None => None }) { unimplemented!() } }
impl Registry { #[verifier::external_body] pub fn run_action(&self, name: &IriS, code: Option<&Text>, c: &SemanticActionContext) -> (r: Result<(), SErr>) ensures r is Ok <==> act_ok(*self, *name, match code { Some(x) => Some(*x), None => None }, *c) { unimplemented!() } }
#[verifier::external_body] pub struct RbeError { x: u64 }
#[verifier::external_body] pub struct Pending { x: u64 }
/// pending references: the node has to conform to the shape
pub type PSet = Set<(Object, ShapeLabelIdx)>;
impl View for Pending { type V = PSet; uninterp spec fn view(&self) -> PSet; }
impl Pending {
    #[verifier::external_body] pub fn empty() -> (r: Pending) ensures r@ == Set::<(Object, ShapeLabelIdx)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_pair(v: Node, s: ShapeLabelIdx) -> (r: Pending) ensures r@ == Set::<(Object, ShapeLabelIdx)>::empty().insert((v.node, s)) { unimplemented!() }
    #[verifier::external_body] pub fn merge(&mut self, o: Pending) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
}
@erase-generics Pending MatchCond SingleCond RbeError
@subst-type K Pred
@subst-type V Node
@subst-type R ShapeLabelIdx
@subst-type Ctx SemanticActionContext
@subst-type P CondKind
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ShapeLabelIdx { x: u64 }
#[verifier::external_body] pub struct Pred { x: u64 }
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Node) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn rerr() -> RbeError { unimplemented!() }
@erase-path RbeError::* rerr()
#[verifier::external_body] pub fn datatype_error_to_rbe(n: &Node, e: &Box<SErr>) -> RbeError { unimplemented!() }
@remap-method as_deref vx_deref
pub trait VxDeref { spec fn dval_o(&self) -> Option<Text>; fn vx_deref(&self) -> (r: Option<&Text>) ensures r == (match self.dval_o() { Some(x) => Some(&x), None => None }); }
impl VxDeref for Option<Text> { open spec fn dval_o(&self) -> Option<Text> { *self } fn vx_deref(&self) -> (r: Option<&Text>) { match self { Some(x) => Some(x), None => None } } }
pub open spec fn flags_of(o: Option<Text>) -> Option<Seq<char>> { match o { Some(f) => Some(f@), None => None } }
/// the condition holds of the node
pub open spec fn cond_ok(k: CondKind, o: Object, c: SemanticActionContext) -> bool {
    match k {
        CondKind::Any => true,
        CondKind::NodeKind(n) => kind_ok(n, o),
        CondKind::Datatype { iri, .. } => dt_ok(iri, o),
        CondKind::Length(n) => n_chars(o) == n,
        CondKind::MinLength(n) => n_chars(o) >= n,
        CondKind::MaxLength(n) => n_chars(o) <= n,
        CondKind::Pattern { regex, flags, .. } => re_valid(pat_src(regex@, flags_of(flags))) && re_matches(pat_src(regex@, flags_of(flags)), pat_text(o)),
        CondKind::MinInclusive(n) => num_of(o) is Some && is_le(num_cmp(n, num_of(o)->Some_0)),
        CondKind::MinExclusive(n) => num_of(o) is Some && is_lt(num_cmp(n, num_of(o)->Some_0)),
        CondKind::MaxInclusive(n) => num_of(o) is Some && is_le(num_cmp(num_of(o)->Some_0, n)),
        CondKind::MaxExclusive(n) => num_of(o) is Some && is_lt(num_cmp(num_of(o)->Some_0, n)),
        CondKind::TotalDigits(n) => num_of(o) is Some && tdig(num_of(o)->Some_0) is Some && tdig(num_of(o)->Some_0)->Some_0 <= n,
        CondKind::FractionDigits(n) => num_of(o) is Some && fdig(num_of(o)->Some_0) is Some && fdig(num_of(o)->Some_0)->Some_0 <= n,
        CondKind::ValueSet { vs, .. } => exists|i: int| 0 <= i < vs.values@.len() && vs_has(#[trigger] vs.values@[i], o),
        CondKind::SemAct { name, code } => match reg_of(c) { Some(r) => act_ok(r, name, code, c), None => false },
    }
}
@fn CondKind@MatchKind<Pred,Node,ShapeLabelIdx,SemanticActionContext>::eval r
    requires !($1.node is Triple),
    ensures r is Ok <==> cond_ok(*self, $1.node, *$2), r is Ok ==> r->Ok_0@ == Set::<(Object, ShapeLabelIdx)>::empty(),
@ret Result<Pending, RbeError>
@rename eval
@closure 0
    -> (r: Result<Pending, RbeError>) ensures r is Ok, r->Ok_0@ == Set::<(Object, ShapeLabelIdx)>::empty()
@closure 1
    -> (r: Result<Pending, RbeError>) ensures r is Err
@endfn
