// ---- validation of a shape: constraints, property shapes, reifiers and the results cache ----
@subst-type RDF::IRI IriS
@subst-type RDF::Subject Subj
@subst-type ShapeMap ShapeMap
@subst-type HashMap ResMap
@erase-method map_err self
@remap-path RDF::subject_as_term vx_subj_ref_term
@remap-path RDF::term_as_subject term_as_subject
@remap-method extend vx_push_all
@byval-iter triples_with_subject_predicate reifiers_of_triple triples by_focus nested_validation_results results
@iter-via focus_nodes vx_items
@iter-via uncached_focus_nodes vx_items
@iter-result triples_with_subject_predicate reifiers_of_triple reifier_shape
@seq-method vx_none
@iter-via by_focus vx_entries
@drop-ident message
@file shacl/src/types/target.rs
@type enum Target
@file shacl/src/ir/reifier_info.rs
@type struct ReifierInfo
@file shacl/src/ir/node_shape.rs
@type struct IRNodeShape drop=closed_info,message,severity,name,description,group
@file shacl/src/ir/property_shape.rs
@type struct IRPropertyShape drop=closed_info,message,severity,name,description,order,group
@file shacl/src/ir/shape.rs
@type enum IRShape
#[verifier::external_body] pub struct Subj { x: u64 }
#[verifier::external_body] pub struct Triple { x: u64 }
pub uninterp spec fn term_of_subj(s: Subj) -> Term;
pub uninterp spec fn term_of(o: Object) -> Term;
pub uninterp spec fn up(st: Store) -> bool;
pub uninterp spec fn sev_of(s: IRShape) -> Severity;
/// terms and objects are two representations of the same RDF terms
#[verifier::external_body] pub broadcast proof fn axiom_terms(t: Term) ensures term_of(#[trigger] obj_of(t)) == t {}
#[verifier::external_body] pub fn vx_subj_ref_term(s: &Subj) -> (r: Term) ensures r == term_of_subj(*s) { unimplemented!() }
/// only literals and triple terms are not subjects
#[verifier::external_body] pub fn term_as_subject(t: &Term) -> (r: Result<Subj, ValidationError>) ensures r is Ok <==> is_subj(*t), r matches Ok(s) ==> term_of_subj(s) == *t { unimplemented!() }
pub uninterp spec fn is_subj(t: Term) -> bool;
pub trait VxPushAll<T> { fn vx_push_all(&mut self, w: Vec<T>); }
impl<T> VxPushAll<T> for Vec<T> { fn vx_push_all(&mut self, w: Vec<T>) ensures final(self)@ == old(self)@ + w@ { let mut w = w; self.append(&mut w); } }
impl Clone for ValidationResult { #[verifier::external_body] fn clone(&self) -> (r: ValidationResult) ensures r == *self { unimplemented!() } }
impl IriS { #[verifier::external_body] pub fn into(self) -> (r: IriS) ensures r == self { unimplemented!() } }
impl Clone for FocusNodes { #[verifier::external_body] fn clone(&self) -> (r: FocusNodes) ensures r@ == self@ { unimplemented!() } }
impl FocusNodes {
    #[verifier::external_body] pub fn new(s: TermSet) -> (r: FocusNodes) ensures forall|t: Term| #[trigger] r@.contains(t) <==> s@.contains(t) { unimplemented!() }
    #[verifier::external_body] pub fn from_iter<T: VxSeq<Item = Term>>(v: T) -> (r: FocusNodes) ensures forall|t: Term| #[trigger] r@.contains(t) <==> v.items().contains(t) { unimplemented!() }
}
#[verifier::external_body] pub struct TermSet { x: u64 }
impl View for TermSet { type V = Seq<Term>; uninterp spec fn view(&self) -> Seq<Term>; }
impl TermSet {
    #[verifier::external_body] pub fn new() -> (r: TermSet) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: Term) -> (r: bool) ensures forall|t: Term| #[trigger] final(self)@.contains(t) <==> old(self)@.contains(t) || t == v { unimplemented!() }
}
impl VxSeq for TermSet {
    type Item = Term;
    open spec fn items(self) -> Seq<Term> { self@ }
    #[verifier::external_body] fn vx_seq_items(self) -> (r: Vec<Term>) { unimplemented!() }
}
impl ValueNodes {
    #[verifier::external_body] pub fn from_iter(v: Vec<(Term, FocusNodes)>) -> (r: ValueNodes)
        ensures forall|k: int| 0 <= k < r@.len() ==> v@.contains(#[trigger] r@[k]), forall|f: Term| #[trigger] ekey(r@, r@.len() as int, f) <==> ekey(v@, v@.len() as int, f) { unimplemented!() }
}
impl SHACLPath { #[verifier::external_body] pub fn iri(i: IriS) -> (r: SHACLPath) ensures r == path_iri(i) { unimplemented!() } }
pub uninterp spec fn path_iri(i: IriS) -> SHACLPath;
pub struct ShaclVocab;
pub uninterp spec fn c_reif() -> IriS;
impl ShaclVocab { #[verifier::external_body] pub fn sh_reifier_shape_constraint_component() -> (r: IriS) ensures r == c_reif() { unimplemented!() } }
// ---- what validating a shape yields ----
pub open spec fn nid(s: IRShape) -> Object { match s { IRShape::NodeShape(n) => n.id, IRShape::PropertyShape(p) => p.id } }
pub open spec fn off(s: IRShape) -> bool { match s { IRShape::NodeShape(n) => n.deactivated, IRShape::PropertyShape(p) => p.deactivated } }
pub open spec fn comps(s: IRShape) -> Seq<IRComponent> { match s { IRShape::NodeShape(n) => n.components@, IRShape::PropertyShape(p) => p.components@ } }
pub open spec fn props(s: IRShape) -> Seq<ShapeLabelIdx> { match s { IRShape::NodeShape(n) => n.property_shapes@, IRShape::PropertyShape(p) => p.property_shapes@ } }
pub open spec fn targs(s: IRShape) -> Seq<Target> { match s { IRShape::NodeShape(n) => n.targets@, IRShape::PropertyShape(p) => p.targets@ } }
pub open spec fn path_of(s: IRShape) -> Option<SHACLPath> { match s { IRShape::NodeShape(n) => None, IRShape::PropertyShape(p) => Some(p.path) } }
pub open spec fn reif_of(s: IRShape) -> Option<ReifierInfo> { match s { IRShape::NodeShape(n) => None, IRShape::PropertyShape(p) => p.reifier_info } }
pub uninterp spec fn shape_at(g: IRSchema, i: ShapeLabelIdx) -> IRShape;
pub uninterp spec fn idx_of(g: IRSchema, o: Object) -> Option<ShapeLabelIdx>;
/// the shape is the one the schema has under its id
pub open spec fn in_schema(g: IRSchema, s: IRShape) -> bool { idx_of(g, nid(s)) matches Some(i) ==> shape_at(g, i) == s }
/// t is reached from f by the path (H19)
pub uninterp spec fn reached(st: Store, p: SHACLPath, f: Term, t: Term) -> bool;
/// t is a value node of f
pub open spec fn isval(st: Store, s: IRShape, f: Term, t: Term) -> bool { match path_of(s) { None => t == f, Some(p) => reached(st, p, f, t) } }
/// f is a focus node of the targets (H17)
pub uninterp spec fn target(st: Store, ts: Seq<Target>, f: Term) -> bool;
/// x is a result of the constraint for the focus node (H12-H16)
pub uninterp spec fn cres(st: Store, g: IRSchema, s: IRShape, c: IRComponent, f: Term, x: ValidationResult) -> bool;
pub uninterp spec fn trip(st: Store, f: Term, p: IriS, tr: Triple) -> bool;
pub uninterp spec fn reifier(st: Store, tr: Triple, n: Term) -> bool;
/// x is a result of validating f with the shape
pub uninterp spec fn res(st: Store, g: IRSchema, s: IRShape, f: Term, x: ValidationResult) -> bool;
/// x is a result of one of the first n constraints
pub open spec fn cupto(st: Store, g: IRSchema, s: IRShape, n: int, f: Term, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && #[trigger] cres(st, g, s, comps(s)[k], f, x) }
/// x is a result of a shape for a value node of f
pub open spec fn vres(st: Store, g: IRSchema, s: IRShape, ps: IRShape, f: Term, x: ValidationResult) -> bool { exists|t: Term| isval(st, s, f, t) && #[trigger] res(st, g, ps, t, x) }
pub open spec fn pupto(st: Store, g: IRSchema, s: IRShape, n: int, f: Term, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && vres(st, g, s, shape_at(g, #[trigger] props(s)[k]), f, x) }
pub open spec fn unreified(st: Store, tr: Triple) -> bool { forall|n: Term| !#[trigger] reifier(st, tr, n) }
pub open spec fn missing(s: IRShape, i: ReifierInfo, f: Term) -> ValidationResult {
    ValidationResult { focus_node: obj_of(f), path: Some(path_iri(i.predicate)), value: None, source: Some(nid(s)), constraint_component: obj_of_iri(c_reif()), severity: sev_of(s) }
}
/// x is a result of the reifiers of the triple for a reifier shape
pub open spec fn tres(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, ri: ShapeLabelIdx, tr: Triple, f: Term, x: ValidationResult) -> bool {
    if unreified(st, tr) && i.reification_required { x == missing(s, i, f) } else { exists|n: Term| reifier(st, tr, n) && #[trigger] res(st, g, shape_at(g, ri), n, x) }
}
pub open spec fn rires(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, ri: ShapeLabelIdx, f: Term, x: ValidationResult) -> bool { exists|tr: Triple| trip(st, f, i.predicate, tr) && #[trigger] tres(st, g, s, i, ri, tr, f, x) }
pub open spec fn riupto(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, n: int, f: Term, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && rires(st, g, s, i, #[trigger] i.reifier_shape@[k], f, x) }
pub open spec fn rres(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, f: Term, x: ValidationResult) -> bool { riupto(st, g, s, i, i.reifier_shape@.len() as int, f, x) }
/// x comes from the property shapes or the reifiers
pub open spec fn nres(st: Store, g: IRSchema, s: IRShape, f: Term, x: ValidationResult) -> bool { pupto(st, g, s, props(s).len() as int, f, x) || (reif_of(s) matches Some(i) && rres(st, g, s, i, f, x)) }
/// The results of a shape: the least solution of this (positive) equation.
#[verifier::external_body] pub proof fn axiom_res(st: Store, g: IRSchema, s: IRShape)
    ensures forall|f: Term, x: ValidationResult| #[trigger] res(st, g, s, f, x) <==> !off(s) && (cupto(st, g, s, comps(s).len() as int, f, x) || nres(st, g, s, f, x)) {}
/// a result of a constraint is about the focus node (H12-H16)
#[verifier::external_body] pub broadcast proof fn axiom_cres(st: Store, g: IRSchema, s: IRShape, c: IRComponent, f: Term, x: ValidationResult)
    requires #[trigger] cres(st, g, s, c, f, x) ensures x.focus_node == obj_of(f) {}
/// x is a result for one of the nodes
pub open spec fn some(st: Store, g: IRSchema, s: IRShape, fs: Seq<Term>, x: ValidationResult) -> bool { exists|f: Term| fs.contains(f) && #[trigger] res(st, g, s, f, x) }
pub open spec fn results(st: Store, g: IRSchema, s: IRShape, fs: Seq<Term>, v: Seq<ValidationResult>) -> bool { forall|x: ValidationResult| #[trigger] v.contains(x) <==> some(st, g, s, fs, x) }
pub open spec fn results_t(st: Store, g: IRSchema, s: IRShape, v: Seq<ValidationResult>) -> bool { forall|x: ValidationResult| #[trigger] v.contains(x) <==> some_t(st, g, s, x) }
pub open spec fn some_t(st: Store, g: IRSchema, s: IRShape, x: ValidationResult) -> bool { exists|f: Term| target(st, targs(s), f) && #[trigger] res(st, g, s, f, x) }
// ---- the results cache ----
/// every result list in the cache is right for the graph and the schema
pub uninterp spec fn ok(e: EngineX, st: Store, g: IRSchema) -> bool;
/// v holds the results of the shape with index i for the node
pub open spec fn right(st: Store, g: IRSchema, v: Seq<ValidationResult>, i: ShapeLabelIdx, o: Object) -> bool { forall|t: Term, x: ValidationResult| obj_of(t) == o ==> (#[trigger] v.contains(x) <==> #[trigger] res(st, g, shape_at(g, i), t, x)) }
// ---- value nodes ----
pub open spec fn ekey(v: Seq<(Term, FocusNodes)>, n: int, f: Term) -> bool { exists|k: int| 0 <= k < n && (#[trigger] v[k]).0 == f }
pub open spec fn entry_ok(st: Store, s: IRShape, e: (Term, FocusNodes)) -> bool { forall|t: Term| #[trigger] e.1@.contains(t) <==> isval(st, s, e.0, t) }
/// the nodes fs with their value nodes
pub open spec fn vn_of(st: Store, s: IRShape, fs: Seq<Term>, v: Seq<(Term, FocusNodes)>) -> bool {
    (forall|f: Term| #[trigger] ekey(v, v.len() as int, f) <==> fs.contains(f)) && (forall|k: int| 0 <= k < v.len() ==> entry_ok(st, s, #[trigger] v[k]))
}
/// x is a result of the constraint for a node of v
pub open spec fn csome(st: Store, g: IRSchema, s: IRShape, c: IRComponent, v: Seq<(Term, FocusNodes)>, x: ValidationResult) -> bool { exists|f: Term| ekey(v, v.len() as int, f) && #[trigger] cres(st, g, s, c, f, x) }
impl Store {
    /// proved under H19
    #[verifier::external_body] pub fn objects_for_shacl_path(&self, f: &Term, p: &SHACLPath) -> (r: Result<TermSet, ValidationError>)
        ensures up(*self) ==> r is Ok, r matches Ok(s) ==> forall|t: Term| #[trigger] s@.contains(t) <==> reached(*self, *p, *f, t) { unimplemented!() }
    #[verifier::external_body] pub fn triples_with_subject_predicate(&self, s: &Subj, p: &IriS) -> (r: Result<Vec<Triple>, ValidationError>)
        ensures r matches Ok(v) ==> forall|tr: Triple| #[trigger] v@.contains(tr) <==> trip(*self, term_of_subj(*s), *p, tr) { unimplemented!() }
    #[verifier::external_body] pub fn reifiers_of_triple(&self, tr: &Triple) -> (r: Result<Vec<Subj>, ValidationError>)
        ensures r matches Ok(v) ==> forall|n: Term| #[trigger] reifier(*self, *tr, n) <==> sin(v@, n) { unimplemented!() }
}
pub open spec fn sin(v: Seq<Subj>, n: Term) -> bool { exists|k: int| 0 <= k < v.len() && term_of_subj(#[trigger] v[k]) == n }
/// a term that is no subject has no triples
#[verifier::external_body] pub broadcast proof fn axiom_trip(st: Store, f: Term, p: IriS, tr: Triple) requires #[trigger] trip(st, f, p, tr) ensures is_subj(f) {}
impl IRSchema {
    #[verifier::external_body] pub fn get_shape_from_idx_e(&self, i: &ShapeLabelIdx) -> (r: Result<&IRShape, ValidationError>)
        ensures r matches Ok(s) ==> *s == shape_at(*self, *i) && in_schema(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn get_idx(&self, o: &Object) -> (r: Option<&ShapeLabelIdx>)
        ensures r is Some <==> idx_of(*self, *o) is Some, r matches Some(i) ==> idx_of(*self, *o) == Some(*i) { unimplemented!() }
}
impl EngineX {
    /// proved under H17
    #[verifier::external_body] pub fn focus_nodes(&self, store: &Store, ts: &Vec<Target>) -> (r: Result<FocusNodes, ValidationError>)
        ensures r is Ok, forall|f: Term| #[trigger] r->Ok_0@.contains(f) <==> target(*store, ts@, f) { unimplemented!() }
    /// proved per constraint under H12-H16
    #[verifier::external_body] pub fn evaluate(&mut self, store: &Store, shape: &IRShape, c: &IRComponent, v: &ValueNodes, src: Option<&IRShape>, path: Option<&SHACLPath>, g: &IRSchema) -> (r: Result<Vec<ValidationResult>, ValidationError>)
        requires opt_path(path) == path_of(*shape), forall|k: int| 0 <= k < v@.len() ==> entry_ok(*store, *shape, #[trigger] v@[k]),
        ensures
            ok(*old(self), *store, *g) ==> ok(*final(self), *store, *g),
            ok(*old(self), *store, *g) ==> (r matches Ok(w) ==> forall|x: ValidationResult| #[trigger] w@.contains(x) <==> csome(*store, *g, *shape, *c, v@, x)),
    { unimplemented!() }
    #[verifier::external_body] pub fn get_cached_results(&self, o: &Object, i: ShapeLabelIdx) -> (r: Option<Vec<ValidationResult>>)
        ensures r matches Some(v) ==> forall|st: Store, g: IRSchema| #[trigger] ok(*self, st, g) ==> right(st, g, v@, i, *o) { unimplemented!() }
    #[verifier::external_body] pub fn record_validation(&mut self, o: Object, i: ShapeLabelIdx, v: Vec<ValidationResult>)
        ensures forall|st: Store, g: IRSchema| #[trigger] ok(*old(self), st, g) && right(st, g, v@, i, o) ==> ok(*final(self), st, g) { unimplemented!() }
}
#[verifier::external_body] pub struct ResMap { x: u64 }
/// the results a node is mapped to
pub uninterp spec fn at(m: ResMap, o: Object) -> Option<Seq<ValidationResult>>;
impl ResMap {
    #[verifier::external_body] pub fn new() -> (r: ResMap) ensures forall|o: Object| #[trigger] at(r, o) is None { unimplemented!() }
    #[verifier::external_body] pub fn vx_put(&mut self, e: (Object, Vec<ValidationResult>)) ensures forall|o: Object| #[trigger] at(*final(self), o) == if o == e.0 { Some(e.1@) } else { at(*old(self), o) } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &Object) -> (r: Option<&mut Vec<ValidationResult>>)
        ensures
            r is Some <==> at(*old(self), *k) is Some,
            r matches Some(b) ==> at(*old(self), *k) == Some((*b)@) && at(*final(self), *k) == Some((*final(b))@),
            r is None ==> *final(self) == *old(self),
            forall|o: Object| o != *k ==> #[trigger] at(*final(self), o) == at(*old(self), o),
    { unimplemented!() }
    #[verifier::external_body] pub fn vx_entries(self) -> (r: Vec<(Object, Vec<ValidationResult>)>) ensures forall|k: int| 0 <= k < r@.len() ==> at(self, (#[trigger] r@[k]).0) == Some(r@[k].1@) { unimplemented!() }
}
// ---- accessors ----
@file shacl/src/validator/report/result.rs
@fn ValidationResult::focus_node r
    ensures *r == self.focus_node,
@endfn
@file shacl/src/ir/reifier_info.rs
@fn ReifierInfo::reification_required r
    ensures r == self.reification_required,
@endfn
@fn ReifierInfo::reifier_shape r
    ensures r@ == self.reifier_shape@,
@endfn
@fn ReifierInfo::predicate r
    ensures *r == self.predicate,
@endfn
@file shacl/src/ir/node_shape.rs
@fn IRNodeShape::id r
    ensures *r == self.id,
@endfn
@fn IRNodeShape::deactivated r
    ensures r == self.deactivated,
@endfn
@fn IRNodeShape::components r
    ensures r@ == self.components@,
@endfn
@fn IRNodeShape::property_shapes r
    ensures r@ == self.property_shapes@,
@endfn
@fn IRNodeShape::targets r
    ensures r@ == self.targets@,
@endfn
@file shacl/src/ir/property_shape.rs
@fn IRPropertyShape::id r
    ensures *r == self.id,
@endfn
@fn IRPropertyShape::deactivated r
    ensures r == self.deactivated,
@endfn
@fn IRPropertyShape::components r
    ensures r@ == self.components@,
@endfn
@fn IRPropertyShape::property_shapes r
    ensures r@ == self.property_shapes@,
@endfn
@fn IRPropertyShape::targets r
    ensures r@ == self.targets@,
@endfn
@fn IRPropertyShape::path r
    ensures *r == self.path,
@endfn
@fn IRPropertyShape::reifier_info r
    ensures r matches Some(i) ==> self.reifier_info == Some(*i), r is None ==> self.reifier_info is None,
@endfn
@file shacl/src/ir/shape.rs
@fn IRShape::id r
    ensures *r == nid(*self),
@endfn
@fn IRShape::deactivated r
    ensures r == off(*self),
@endfn
@fn IRShape::components r
    ensures r@ == comps(*self),
@endfn
@fn IRShape::property_shapes r
    ensures r@ == props(*self),
@endfn
@fn IRShape::targets r
    ensures r@ == targs(*self),
@endfn
@fn IRShape::path r
    ensures opt_path(r) == path_of(*self),
@endfn
@fn IRShape::reifier_info r
    ensures r matches Some(i) ==> reif_of(*self) == Some(*i), r is None ==> reif_of(*self) is None,
@endfn
impl IRShape { #[verifier::external_body] pub fn severity(&self) -> (r: &Severity) ensures *r == sev_of(*self) { unimplemented!() } }
// ---- focus nodes and value nodes ----
@file shacl/src/validator/engine/mod.rs
@fn Engine::path r
    ensures up(*$1) ==> r is Ok, r matches Ok(f) ==> forall|t: Term| #[trigger] f@.contains(t) <==> reached(*$1, $2.path, *$3, t),
@impl impl EngineX
@endfn
@file shacl/src/validator/engine/focus_nodes_ops.rs
@fn IRShape@FocusNodesOps::focus_nodes r
    ensures forall|f: Term| #[trigger] r@.contains(f) <==> target(*$1, targs(*self), f),
@argty 2 &EngineX
@endfn
pub proof fn lemma_ekey(v: Seq<(Term, FocusNodes)>, n: int)
    requires 0 <= n < v.len()
    ensures forall|f: Term| #[trigger] ekey(v, n + 1, f) <==> ekey(v, n, f) || v[n].0 == f
{
    assert forall|f: Term| #[trigger] ekey(v, n + 1, f) <==> ekey(v, n, f) || v[n].0 == f by {
        if ekey(v, n, f) { let k = choose|k: int| 0 <= k < n && (#[trigger] v[k]).0 == f; assert(v[k].0 == f && k < n + 1); }
    }
}
pub proof fn lemma_ekey_push(v: Seq<(Term, FocusNodes)>, e: (Term, FocusNodes))
    ensures forall|f: Term| #[trigger] ekey(v.push(e), v.len() as int + 1, f) <==> ekey(v, v.len() as int, f) || e.0 == f
{
    let w = v.push(e);
    lemma_ekey(w, v.len() as int);
    assert forall|f: Term| ekey(w, v.len() as int, f) <==> #[trigger] ekey(v, v.len() as int, f) by {
        if ekey(v, v.len() as int, f) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == f; assert(w[k].0 == f); }
        if ekey(w, v.len() as int, f) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] w[k]).0 == f; assert(v[k].0 == f); }
    }
}
pub open spec fn before(v: Seq<Term>, n: int, f: Term) -> bool { exists|k: int| 0 <= k < n && #[trigger] v[k] == f }
pub proof fn lemma_before(v: Seq<Term>, n: int)
    requires 0 <= n < v.len()
    ensures forall|f: Term| #[trigger] before(v, n + 1, f) <==> before(v, n, f) || v[n] == f
{
    assert forall|f: Term| #[trigger] before(v, n + 1, f) <==> before(v, n, f) || v[n] == f by {
        if before(v, n, f) { let k = choose|k: int| 0 <= k < n && #[trigger] v[k] == f; assert(v[k] == f && k < n + 1); }
    }
}
pub proof fn lemma_before_all(v: Seq<Term>) ensures forall|f: Term| #![trigger before(v, v.len() as int, f)] #![trigger v.contains(f)] before(v, v.len() as int, f) <==> v.contains(f) {}
@file shacl/src/validator/engine/value_nodes_ops.rs
@fn IRNodeShape@ValueNodesOps::value_nodes r
    ensures r matches Ok(v) && forall|b: Box<IRNodeShape>, st: Store| *b == *self ==> #[trigger] vn_of(st, IRShape::NodeShape(b), $2@, v@),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|f: Term| #[trigger] ekey($acc@, $acc@.len() as int, f) <==> before($c@, $i as int, f), forall|k: int| 0 <= k < $acc@.len() ==> (#[trigger] $acc@[k]).1@ == seq![$acc@[k].0],
@loopstart 0
    let ghost a0 = $acc@;
    proof { lemma_before($c@, $i as int); }
@loopend 0
    proof { lemma_ekey_push(a0, $acc@[a0.len() as int]); assert($acc@ == a0.push($acc@[a0.len() as int])); }
@loopafter 0
    proof { lemma_before_all($c@); assert forall|x: Term, y: Term| #[trigger] seq![x].contains(y) <==> x == y by { assert(seq![x][0] == x); } }
@argty 3 &EngineX
@endfn
@fn IRPropertyShape@ValueNodesOps::value_nodes r
    requires up(*$1),
    ensures r matches Ok(v) && forall|b: Box<IRPropertyShape>| *b == *self ==> #[trigger] vn_of(*$1, IRShape::PropertyShape(b), $2@, v@),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|f: Term| #[trigger] ekey($acc@, $acc@.len() as int, f) <==> before($c@, $i as int, f), forall|k: int, t: Term| 0 <= k < $acc@.len() ==> (#[trigger] ($acc@[k]).1@.contains(t) <==> reached(*$1, self.path, $acc@[k].0, t)),
@loopstart 0
    let ghost a0 = $acc@;
    proof { lemma_before($c@, $i as int); }
@loopend 0
    proof { lemma_ekey_push(a0, $acc@[a0.len() as int]); assert($acc@ == a0.push($acc@[a0.len() as int])); }
@loopafter 0
    proof { lemma_before_all($c@); }
@argty 3 &EngineX
@endfn
@fn IRShape@ValueNodesOps::value_nodes r
    requires up(*$1),
    ensures r matches Ok(v) && vn_of(*$1, *self, $2@, v@),
@argty 3 &EngineX
@endfn
// ---- validation ----
pub broadcast proof fn lemma_push_has<T>(v: Seq<T>, e: T, x: T) ensures #[trigger] v.push(e).contains(x) <==> v.contains(x) || x == e
{
    let w = v.push(e);
    if v.contains(x) { let k = choose|k: int| 0 <= k < v.len() && v[k] == x; assert(w[k] == x); }
    if x == e { assert(w[v.len() as int] == x); }
    if w.contains(x) { let k = choose|k: int| 0 <= k < w.len() && w[k] == x; if k < v.len() { assert(v[k] == x); } }
}
pub broadcast proof fn lemma_cat_has<T>(a: Seq<T>, b: Seq<T>, x: T) ensures #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    let w = a + b;
    if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(w[k] == x); }
    if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert(w[a.len() + k] == x); }
    if w.contains(x) { let k = choose|k: int| 0 <= k < w.len() && w[k] == x; if k < a.len() { assert(a[k] == x); } else { assert(b[k - a.len()] == x); } }
}
/// x is a result of the reifiers of one of the first n nodes
pub open spec fn nsome(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, fs: Seq<Term>, n: int, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && rres(st, g, s, i, #[trigger] fs[k], x) }
pub proof fn lemma_nsome(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, fs: Seq<Term>, n: int)
    requires 0 <= n < fs.len()
    ensures forall|x: ValidationResult| #[trigger] nsome(st, g, s, i, fs, n + 1, x) <==> nsome(st, g, s, i, fs, n, x) || rres(st, g, s, i, fs[n], x)
{
    assert forall|x: ValidationResult| #[trigger] nsome(st, g, s, i, fs, n + 1, x) <==> nsome(st, g, s, i, fs, n, x) || rres(st, g, s, i, fs[n], x) by {
        if nsome(st, g, s, i, fs, n, x) { let k = choose|k: int| 0 <= k < n && rres(st, g, s, i, #[trigger] fs[k], x); assert(k < n + 1 && rres(st, g, s, i, fs[k], x)); }
    }
}
pub proof fn lemma_riupto(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, n: int, f: Term)
    requires 0 <= n < i.reifier_shape@.len()
    ensures forall|x: ValidationResult| #[trigger] riupto(st, g, s, i, n + 1, f, x) <==> riupto(st, g, s, i, n, f, x) || rires(st, g, s, i, i.reifier_shape@[n], f, x)
{
    assert forall|x: ValidationResult| #[trigger] riupto(st, g, s, i, n + 1, f, x) <==> riupto(st, g, s, i, n, f, x) || rires(st, g, s, i, i.reifier_shape@[n], f, x) by {
        if riupto(st, g, s, i, n, f, x) { let k = choose|k: int| 0 <= k < n && rires(st, g, s, i, #[trigger] i.reifier_shape@[k], f, x); assert(k < n + 1 && rires(st, g, s, i, i.reifier_shape@[k], f, x)); }
    }
}
/// x is a result of the reifiers of one of the first n triples
pub open spec fn tupto(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, ri: ShapeLabelIdx, v: Seq<Triple>, n: int, f: Term, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && tres(st, g, s, i, ri, #[trigger] v[k], f, x) }
pub proof fn lemma_tupto(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, ri: ShapeLabelIdx, v: Seq<Triple>, n: int, f: Term)
    requires 0 <= n < v.len()
    ensures forall|x: ValidationResult| #[trigger] tupto(st, g, s, i, ri, v, n + 1, f, x) <==> tupto(st, g, s, i, ri, v, n, f, x) || tres(st, g, s, i, ri, v[n], f, x)
{
    assert forall|x: ValidationResult| #[trigger] tupto(st, g, s, i, ri, v, n + 1, f, x) <==> tupto(st, g, s, i, ri, v, n, f, x) || tres(st, g, s, i, ri, v[n], f, x) by {
        if tupto(st, g, s, i, ri, v, n, f, x) { let k = choose|k: int| 0 <= k < n && tres(st, g, s, i, ri, #[trigger] v[k], f, x); assert(k < n + 1 && tres(st, g, s, i, ri, v[k], f, x)); }
    }
}
pub proof fn lemma_tall(st: Store, g: IRSchema, s: IRShape, i: ReifierInfo, ri: ShapeLabelIdx, v: Seq<Triple>, f: Term)
    requires forall|tr: Triple| #[trigger] v.contains(tr) <==> trip(st, f, i.predicate, tr)
    ensures forall|x: ValidationResult| #[trigger] tupto(st, g, s, i, ri, v, v.len() as int, f, x) <==> rires(st, g, s, i, ri, f, x)
{
    assert forall|x: ValidationResult| #[trigger] tupto(st, g, s, i, ri, v, v.len() as int, f, x) <==> rires(st, g, s, i, ri, f, x) by {
        if tupto(st, g, s, i, ri, v, v.len() as int, f, x) { let k = choose|k: int| 0 <= k < v.len() && tres(st, g, s, i, ri, #[trigger] v[k], f, x); assert(v.contains(v[k])); assert(tres(st, g, s, i, ri, v[k], f, x)); }
        if rires(st, g, s, i, ri, f, x) { let tr = choose|tr: Triple| trip(st, f, i.predicate, tr) && #[trigger] tres(st, g, s, i, ri, tr, f, x); assert(v.contains(tr)); let k = choose|k: int| 0 <= k < v.len() && v[k] == tr; assert(tres(st, g, s, i, ri, v[k], f, x)); }
    }
}
pub open spec fn supto(v: Seq<Subj>, n: int, t: Term) -> bool { exists|k: int| 0 <= k < n && term_of_subj(#[trigger] v[k]) == t }
pub proof fn lemma_supto(v: Seq<Subj>, n: int)
    requires 0 <= n < v.len()
    ensures forall|t: Term| #[trigger] supto(v, n + 1, t) <==> supto(v, n, t) || term_of_subj(v[n]) == t
{
    assert forall|t: Term| #[trigger] supto(v, n + 1, t) <==> supto(v, n, t) || term_of_subj(v[n]) == t by {
        if supto(v, n, t) { let k = choose|k: int| 0 <= k < n && term_of_subj(#[trigger] v[k]) == t; assert(term_of_subj(v[k]) == t && k < n + 1); }
    }
}
@file shacl/src/validator/engine/validate.rs
@fn validate_reifiers r
    requires up(*$2), reif_of(*$1) == Some(*$4), ok(*old($3), *$2, *$6),
    ensures
        ok(*final($3), *$2, *$6),
        r matches Ok(v) ==> forall|x: ValidationResult| #[trigger] v@.contains(x) <==> nsome(*$2, *$6, *$1, *$4, $5@, $5@.len() as int, x),
@argty 3 &mut EngineX
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@collect 1 TermSet insert
@loop 0
    invariant ok(*$3, *$2, *$6), $c@ == $5@,
        forall|x: ValidationResult| #[trigger] results@.contains(x) <==> nsome(*$2, *$6, *$1, *$4, $5@, $i as int, x),
@loopstart 0
    let ghost i0 = $i as int;
    let ghost f = $c@[i0];
    proof { lemma_nsome(*$2, *$6, *$1, *$4, $5@, i0); }
@loop 1
    invariant ok(*$3, *$2, *$6), $c@ == $4.reifier_shape@,
        forall|x: ValidationResult| #[trigger] results@.contains(x) <==> nsome(*$2, *$6, *$1, *$4, $5@, i0, x) || riupto(*$2, *$6, *$1, *$4, $i as int, f, x),
@loopstart 1
    let ghost j0 = $i as int;
    let ghost ri = $c@[j0];
    proof {
        lemma_riupto(*$2, *$6, *$1, *$4, j0, f);
        if !is_subj(f) { assert forall|tr: Triple| !trip(*$2, f, $4.predicate, tr) by { if trip(*$2, f, $4.predicate, tr) { axiom_trip(*$2, f, $4.predicate, tr); } } }
    }
@loop 2
    invariant ok(*$3, *$2, *$6),
        forall|x: ValidationResult| #[trigger] results@.contains(x) <==> nsome(*$2, *$6, *$1, *$4, $5@, i0, x) || riupto(*$2, *$6, *$1, *$4, j0, f, x) || tupto(*$2, *$6, *$1, *$4, ri, $c@, $i as int, f, x),
@loopstart 2
    let ghost tr = $c@[$i as int];
    proof { lemma_tupto(*$2, *$6, *$1, *$4, ri, $c@, $i as int, f); }
    broadcast use {lemma_push_has, lemma_cat_has};
@loopafter 2
    proof { lemma_tall(*$2, *$6, *$1, *$4, ri, $c@, f); }
@loop 3
    invariant $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == $c@[k],
@loopafter 3
    proof { assert($acc@ =~= $c@); if $c@.len() > 0 { assert(sin($c@, term_of_subj($c@[0]))); assert(reifier(*$2, tr, term_of_subj($c@[0]))); } }
@loop 4
    invariant forall|t: Term| #[trigger] $acc@.contains(t) <==> supto($c@, $i as int, t),
@loopstart 4
    proof { lemma_supto($c@, $i as int); }
@loopafter 4
    proof { assert forall|t: Term| #[trigger] $acc@.contains(t) <==> reifier(*$2, tr, t) by { assert(supto($c@, $c@.len() as int, t) <==> sin($c@, t)); } }
@afterlet vr_iter
    proof {
        assert forall|x: ValidationResult| #[trigger] vr_iter@.contains(x) <==> tres(*$2, *$6, *$1, *$4, ri, tr, f, x) by {
            if exists|n: Term| reifier(*$2, tr, n) && #[trigger] res(*$2, *$6, shape_at(*$6, ri), n, x) { }
        }
    }
@endfn
pub open spec fn inn(v: Seq<(Term, Vec<ValidationResult>)>, n: int, f: Term, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && (#[trigger] v[k]).0 == f && v[k].1@.contains(x) }
pub proof fn lemma_inn(v: Seq<(Term, Vec<ValidationResult>)>, n: int)
    requires 0 <= n < v.len()
    ensures forall|f: Term, x: ValidationResult| #[trigger] inn(v, n + 1, f, x) <==> inn(v, n, f, x) || (v[n].0 == f && v[n].1@.contains(x))
{
    assert forall|f: Term, x: ValidationResult| #[trigger] inn(v, n + 1, f, x) <==> inn(v, n, f, x) || (v[n].0 == f && v[n].1@.contains(x)) by {
        if inn(v, n, f, x) { let k = choose|k: int| 0 <= k < n && (#[trigger] v[k]).0 == f && v[k].1@.contains(x); assert(v[k].0 == f && k < n + 1); }
    }
}
pub proof fn lemma_inn_push(v: Seq<(Term, Vec<ValidationResult>)>, e: (Term, Vec<ValidationResult>))
    ensures forall|f: Term, x: ValidationResult| #[trigger] inn(v.push(e), v.len() as int + 1, f, x) <==> inn(v, v.len() as int, f, x) || (e.0 == f && e.1@.contains(x))
{
    let w = v.push(e);
    lemma_inn(w, v.len() as int);
    assert forall|f: Term, x: ValidationResult| inn(w, v.len() as int, f, x) <==> #[trigger] inn(v, v.len() as int, f, x) by {
        if inn(v, v.len() as int, f, x) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == f && v[k].1@.contains(x); assert(w[k].0 == f); }
        if inn(w, v.len() as int, f, x) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] w[k]).0 == f && w[k].1@.contains(x); assert(v[k].0 == f); }
    }
}
/// x is a result of one of the first n constraints for one of the nodes
pub open spec fn cusome(st: Store, g: IRSchema, s: IRShape, fs: Seq<Term>, n: int, x: ValidationResult) -> bool { exists|f: Term| fs.contains(f) && #[trigger] cupto(st, g, s, n, f, x) }
pub proof fn lemma_cusome(st: Store, g: IRSchema, s: IRShape, fs: Seq<Term>, n: int, v: Seq<(Term, FocusNodes)>)
    requires 0 <= n < comps(s).len(), vn_of(st, s, fs, v)
    ensures forall|x: ValidationResult| #[trigger] cusome(st, g, s, fs, n + 1, x) <==> cusome(st, g, s, fs, n, x) || csome(st, g, s, comps(s)[n], v, x)
{
    assert forall|x: ValidationResult| #[trigger] cusome(st, g, s, fs, n + 1, x) <==> cusome(st, g, s, fs, n, x) || csome(st, g, s, comps(s)[n], v, x) by {
        if cusome(st, g, s, fs, n + 1, x) {
            let f = choose|f: Term| fs.contains(f) && #[trigger] cupto(st, g, s, n + 1, f, x);
            let k = choose|k: int| 0 <= k < n + 1 && #[trigger] cres(st, g, s, comps(s)[k], f, x);
            assert(ekey(v, v.len() as int, f));
            if k < n { assert(cupto(st, g, s, n, f, x)); }
        }
        if cusome(st, g, s, fs, n, x) {
            let f = choose|f: Term| fs.contains(f) && #[trigger] cupto(st, g, s, n, f, x);
            let k = choose|k: int| 0 <= k < n && #[trigger] cres(st, g, s, comps(s)[k], f, x);
            assert(cres(st, g, s, comps(s)[k], f, x) && k < n + 1);
            assert(cupto(st, g, s, n + 1, f, x));
        }
        if csome(st, g, s, comps(s)[n], v, x) {
            let f = choose|f: Term| ekey(v, v.len() as int, f) && #[trigger] cres(st, g, s, comps(s)[n], f, x);
            assert(fs.contains(f));
            assert(cupto(st, g, s, n + 1, f, x));
        }
    }
}
pub proof fn lemma_pupto(st: Store, g: IRSchema, s: IRShape, n: int)
    requires 0 <= n < props(s).len()
    ensures forall|f: Term, x: ValidationResult| #[trigger] pupto(st, g, s, n + 1, f, x) <==> pupto(st, g, s, n, f, x) || vres(st, g, s, shape_at(g, props(s)[n]), f, x)
{
    assert forall|f: Term, x: ValidationResult| #[trigger] pupto(st, g, s, n + 1, f, x) <==> pupto(st, g, s, n, f, x) || vres(st, g, s, shape_at(g, props(s)[n]), f, x) by {
        if pupto(st, g, s, n, f, x) { let k = choose|k: int| 0 <= k < n && vres(st, g, s, shape_at(g, #[trigger] props(s)[k]), f, x); assert(k < n + 1 && vres(st, g, s, shape_at(g, props(s)[k]), f, x)); }
    }
}
pub open spec fn vbefore(v: Seq<ValidationResult>, n: int, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && #[trigger] v[k] == x }
pub proof fn lemma_vbefore(v: Seq<ValidationResult>, n: int)
    requires 0 <= n < v.len()
    ensures forall|x: ValidationResult| #[trigger] vbefore(v, n + 1, x) <==> vbefore(v, n, x) || v[n] == x
{
    assert forall|x: ValidationResult| #[trigger] vbefore(v, n + 1, x) <==> vbefore(v, n, x) || v[n] == x by {
        if vbefore(v, n, x) { let k = choose|k: int| 0 <= k < n && #[trigger] v[k] == x; assert(v[k] == x && k < n + 1); }
    }
}
pub open spec fn fl(v: Seq<(Term, Vec<ValidationResult>)>, n: int, x: ValidationResult) -> bool { exists|k: int| 0 <= k < n && (#[trigger] v[k]).1@.contains(x) }
pub proof fn lemma_fl(v: Seq<(Term, Vec<ValidationResult>)>, n: int)
    requires 0 <= n < v.len()
    ensures forall|x: ValidationResult| #[trigger] fl(v, n + 1, x) <==> fl(v, n, x) || v[n].1@.contains(x)
{
    assert forall|x: ValidationResult| #[trigger] fl(v, n + 1, x) <==> fl(v, n, x) || v[n].1@.contains(x) by {
        if fl(v, n, x) { let k = choose|k: int| 0 <= k < n && (#[trigger] v[k]).1@.contains(x); assert(v[k].1@.contains(x) && k < n + 1); }
    }
}
/// every result of f is in v
pub open spec fn cov(st: Store, g: IRSchema, s: IRShape, v: Seq<ValidationResult>, f: Term) -> bool { forall|x: ValidationResult| #[trigger] res(st, g, s, f, x) ==> v.contains(x) }
pub open spec fn isfoc(u: Seq<Term>, o: Object) -> bool { u.contains(term_of(o)) && obj_of(term_of(o)) == o }
/// b holds the results of o among the constraint results c and the nested results
pub open spec fn bucket(u: Seq<Term>, c: Seq<ValidationResult>, i: int, v: Seq<(Term, Vec<ValidationResult>)>, j: int, o: Object, b: Seq<ValidationResult>) -> bool {
    isfoc(u, o) && forall|x: ValidationResult| #[trigger] b.contains(x) <==> (x.focus_node == o && vbefore(c, i, x)) || inn(v, j, term_of(o), x)
}
pub open spec fn all_nested(st: Store, g: IRSchema, s: IRShape, u: Seq<Term>, v: Seq<(Term, Vec<ValidationResult>)>) -> bool { forall|f: Term, x: ValidationResult| #[trigger] inn(v, v.len() as int, f, x) <==> u.contains(f) && nres(st, g, s, f, x) }
pub open spec fn all_comps(st: Store, g: IRSchema, s: IRShape, u: Seq<Term>, c: Seq<ValidationResult>) -> bool { forall|x: ValidationResult| #[trigger] c.contains(x) <==> cusome(st, g, s, u, comps(s).len() as int, x) }
pub proof fn lemma_right(st: Store, g: IRSchema, s: IRShape, i: ShapeLabelIdx, u: Seq<Term>, c: Seq<ValidationResult>, v: Seq<(Term, Vec<ValidationResult>)>, o: Object, b: Seq<ValidationResult>)
    requires shape_at(g, i) == s, !off(s), all_comps(st, g, s, u, c), all_nested(st, g, s, u, v), bucket(u, c, c.len() as int, v, v.len() as int, o, b)
    ensures right(st, g, b, i, o)
{
    broadcast use axiom_terms;
    axiom_res(st, g, s);
    let n = comps(s).len() as int;
    assert forall|t: Term, x: ValidationResult| obj_of(t) == o implies (#[trigger] b.contains(x) <==> #[trigger] res(st, g, s, t, x)) by {
        assert(t == term_of(o));
        assert(vbefore(c, c.len() as int, x) <==> c.contains(x));
        if cupto(st, g, s, n, t, x) {
            let k = choose|k: int| 0 <= k < n && #[trigger] cres(st, g, s, comps(s)[k], t, x);
            axiom_cres(st, g, s, comps(s)[k], t, x);
            assert(cusome(st, g, s, u, n, x));
        }
        if x.focus_node == o && c.contains(x) {
            let f = choose|f: Term| u.contains(f) && #[trigger] cupto(st, g, s, n, f, x);
            let k = choose|k: int| 0 <= k < n && #[trigger] cres(st, g, s, comps(s)[k], f, x);
            axiom_cres(st, g, s, comps(s)[k], f, x);
            assert(term_of(obj_of(f)) == f);
        }
    }
}
pub proof fn lemma_final(st: Store, g: IRSchema, s: IRShape, fs: Seq<Term>, u: Seq<Term>, h: Seq<ValidationResult>, c: Seq<ValidationResult>, v: Seq<(Term, Vec<ValidationResult>)>)
    requires
        !off(s), all_comps(st, g, s, u, c), all_nested(st, g, s, u, v),
        forall|f: Term| #[trigger] u.contains(f) ==> fs.contains(f),
        forall|f: Term| #[trigger] fs.contains(f) ==> u.contains(f) || cov(st, g, s, h, f),
        forall|x: ValidationResult| #[trigger] h.contains(x) ==> some(st, g, s, fs, x),
    ensures forall|x: ValidationResult| #[trigger] some(st, g, s, fs, x) <==> h.contains(x) || c.contains(x) || fl(v, v.len() as int, x)
{
    axiom_res(st, g, s);
    let n = comps(s).len() as int;
    assert forall|x: ValidationResult| #[trigger] some(st, g, s, fs, x) <==> h.contains(x) || c.contains(x) || fl(v, v.len() as int, x) by {
        if some(st, g, s, fs, x) {
            let f = choose|f: Term| fs.contains(f) && #[trigger] res(st, g, s, f, x);
            if u.contains(f) {
                if cupto(st, g, s, n, f, x) { assert(cusome(st, g, s, u, n, x)); }
                else { assert(inn(v, v.len() as int, f, x)); let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == f && v[k].1@.contains(x); assert(v[k].1@.contains(x)); }
            }
        }
        if c.contains(x) { let f = choose|f: Term| u.contains(f) && #[trigger] cupto(st, g, s, n, f, x); assert(res(st, g, s, f, x)); }
        if fl(v, v.len() as int, x) {
            let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).1@.contains(x);
            assert(inn(v, v.len() as int, v[k].0, x));
            assert(res(st, g, s, v[k].0, x));
        }
    }
}
/// taking the results v of a cached node f keeps the cached results right and complete
pub open spec fn hit(st: Store, g: IRSchema, s: IRShape, fs: Seq<Term>, f: Term, h: Seq<ValidationResult>, v: Seq<ValidationResult>) -> bool {
    (forall|x: ValidationResult| #[trigger] (h + v).contains(x) ==> some(st, g, s, fs, x)) && cov(st, g, s, h + v, f) && forall|k: Term| #[trigger] cov(st, g, s, h, k) ==> cov(st, g, s, h + v, k)
}
pub proof fn lemma_hit(st: Store, g: IRSchema, s: IRShape, fs: Seq<Term>, f: Term, h: Seq<ValidationResult>, i: ShapeLabelIdx)
    requires fs.contains(f), shape_at(g, i) == s, forall|x: ValidationResult| #[trigger] h.contains(x) ==> some(st, g, s, fs, x)
    ensures forall|v: Seq<ValidationResult>| #[trigger] right(st, g, v, i, obj_of(f)) ==> hit(st, g, s, fs, f, h, v)
{
    broadcast use lemma_cat_has;
    assert forall|v: Seq<ValidationResult>| #[trigger] right(st, g, v, i, obj_of(f)) implies hit(st, g, s, fs, f, h, v) by {
        assert forall|x: ValidationResult| #[trigger] (h + v).contains(x) implies some(st, g, s, fs, x) by { if v.contains(x) { assert(res(st, g, s, f, x)); } }
        assert forall|x: ValidationResult| #[trigger] res(st, g, s, f, x) implies (h + v).contains(x) by { assert(v.contains(x) <==> res(st, g, shape_at(g, i), f, x)); }
    }
}
@fn IRShape@Validate::validate r
    requires up(*$1), in_schema(*$5, *self), ok(*old($2), *$1, *$5),
    ensures
        ok(*final($2), *$1, *$5),
        r matches Ok(v) ==> match $3 { Some(t) => results(*$1, *$5, *self, t@, v@), None => results_t(*$1, *$5, *self, v@) },
@argty 2 &mut EngineX
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@collect 0 ResMap vx_put
@start
    let ghost st = *$1;
    let ghost g = *$5;
    let ghost s = *self;
    proof { axiom_res(st, g, s); broadcast use {lemma_push_has, lemma_cat_has, axiom_terms}; }
@afterlet focus_nodes
    let ghost fs = focus_nodes@;
    proof {
        if $3 is None {
            assert forall|x: ValidationResult| #[trigger] some(st, g, s, fs, x) <==> some_t(st, g, s, x) by {
                if some(st, g, s, fs, x) { let f = choose|f: Term| fs.contains(f) && #[trigger] res(st, g, s, f, x); assert(target(st, targs(s), f)); }
                if some_t(st, g, s, x) { let f = choose|f: Term| target(st, targs(s), f) && #[trigger] res(st, g, s, f, x); assert(fs.contains(f)); }
            }
        }
    }
@loop 0
    invariant ok(*$2, st, g), $c@ == fs,
        forall|x: ValidationResult| #[trigger] cached_results@.contains(x) ==> some(st, g, s, fs, x),
        forall|f: Term| #[trigger] before(fs, $i as int, f) ==> uncached@.contains(f) || cov(st, g, s, cached_results@, f),
        forall|f: Term| #[trigger] uncached@.contains(f) ==> fs.contains(f),
@loopstart 0
    let ghost f0 = $c@[$i as int];
    let ghost h0 = cached_results@;
    proof { lemma_before(fs, $i as int); assert(fs.contains(f0)); lemma_hit(st, g, s, fs, f0, h0, *idx); }
    broadcast use lemma_push_has;
@loopafter 0
    proof { lemma_before_all(fs); }
@afterlet uncached_focus_nodes
    let ghost u = uncached_focus_nodes@;
    let ghost h = cached_results@;
    proof {
        assert(forall|f: Term| #[trigger] u.contains(f) ==> fs.contains(f));
        assert(forall|f: Term| #[trigger] fs.contains(f) ==> u.contains(f) || cov(st, g, s, h, f));
        assert(forall|x: ValidationResult| #[trigger] h.contains(x) ==> some(st, g, s, fs, x));
        if u.len() == 0 {
            assert forall|x: ValidationResult| #[trigger] some(st, g, s, fs, x) implies h.contains(x) by {
                let f = choose|f: Term| fs.contains(f) && #[trigger] res(st, g, s, f, x);
                assert(!u.contains(f)); assert(cov(st, g, s, h, f));
            }
            assert(results(st, g, s, fs, h));
            assert($3 matches Some(t) ==> t@ == fs);
            assert($3 is Some ==> results(st, g, s, $3->Some_0@, h));
            assert($3 is None ==> results_t(st, g, s, h));
        }
    }
@loop 1
    invariant ok(*$2, st, g), $c@ == comps(s),
        forall|x: ValidationResult| #[trigger] component_validation_results@.contains(x) <==> cusome(st, g, s, u, $i as int, x),
@loopstart 1
    proof { lemma_cusome(st, g, s, u, $i as int, value_nodes@); }
    broadcast use lemma_cat_has;
@loopbefore 2
    proof { assert(all_comps(st, g, s, u, component_validation_results@)); }
@loop 2
    invariant ok(*$2, st, g), $c@ == props(s),
        forall|f: Term, x: ValidationResult| #[trigger] inn(nested_validation_results@, nested_validation_results@.len() as int, f, x) <==> u.contains(f) && pupto(st, g, s, $i as int, f, x),
@loopstart 2
    let ghost i2 = $i as int;
    let ghost ps0 = shape_at(g, $c@[i2]);
    proof { lemma_pupto(st, g, s, i2); }
@loop 3
    invariant ok(*$2, st, g), $c@ == value_nodes@,
        forall|f: Term, x: ValidationResult| #[trigger] inn(nested_validation_results@, nested_validation_results@.len() as int, f, x) <==> (u.contains(f) && pupto(st, g, s, i2, f, x)) || (ekey($c@, $i as int, f) && vres(st, g, s, ps0, f, x)),
@loopstart 3
    let ghost n3 = nested_validation_results@;
    let ghost e3 = $c@[$i as int];
    proof { lemma_ekey($c@, $i as int); assert(entry_ok(st, s, e3)); }
@loopend 3
    proof {
        let e = nested_validation_results@[n3.len() as int];
        assert(nested_validation_results@ == n3.push(e));
        lemma_inn_push(n3, e);
        assert forall|x: ValidationResult| #[trigger] e.1@.contains(x) <==> vres(st, g, s, ps0, e.0, x) by { }
    }
@loop 4
    invariant ok(*$2, st, g), $c@ == u,
        forall|f: Term, x: ValidationResult| #[trigger] inn(nested_validation_results@, nested_validation_results@.len() as int, f, x) <==> (u.contains(f) && pupto(st, g, s, props(s).len() as int, f, x)) || (before(u, $i as int, f) && rres(st, g, s, *reifier_info, f, x)),
@loopstart 4
    let ghost n4 = nested_validation_results@;
    let ghost i4 = $i as int;
    proof { lemma_before(u, i4); }
@loopend 4
    proof {
        let e = nested_validation_results@[n4.len() as int];
        assert(nested_validation_results@ == n4.push(e));
        lemma_inn_push(n4, e);
        assert forall|x: ValidationResult| #[trigger] e.1@.contains(x) <==> rres(st, g, s, *reifier_info, e.0, x) by {
            let one = seq![e.0];
            assert(one[0] == e.0);
            if nsome(st, g, s, *reifier_info, one, 1, x) { let k = choose|k: int| 0 <= k < 1 && rres(st, g, s, *reifier_info, #[trigger] one[k], x); assert(k == 0); }
            if rres(st, g, s, *reifier_info, e.0, x) { assert(rres(st, g, s, *reifier_info, one[0], x)); }
        }
    }
@loopafter 4
    proof { lemma_before_all(u); }
@loopbefore 5
    proof { assert(all_nested(st, g, s, u, nested_validation_results@)); }
@loop 5
    invariant $c@ == u, forall|o: Object| #[trigger] at($acc, o) matches Some(b) ==> bucket(u, component_validation_results@, 0, nested_validation_results@, 0, o, b),
@loopstart 5
    proof { broadcast use axiom_terms; assert(u.contains($c@[$i as int])); }
@loop 6
    invariant $c@ == component_validation_results@, forall|o: Object| #[trigger] at(by_focus, o) matches Some(b) ==> bucket(u, component_validation_results@, $i as int, nested_validation_results@, 0, o, b),
@loopstart 6
    let ghost m6 = by_focus;
    let ghost i6 = $i as int;
    proof { lemma_vbefore(component_validation_results@, i6); }
    broadcast use lemma_push_has;
@loop 7
    invariant $c@ == nested_validation_results@, forall|o: Object| #[trigger] at(by_focus, o) matches Some(b) ==> bucket(u, component_validation_results@, component_validation_results@.len() as int, nested_validation_results@, $i as int, o, b),
@loopstart 7
    let ghost m7 = by_focus;
    let ghost i7 = $i as int;
    proof { lemma_inn(nested_validation_results@, i7); }
    broadcast use {lemma_cat_has, axiom_terms};
@loop 8
    invariant $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == $c@[k],
@loopafter 8
    proof { assert($acc@ =~= $c@); }
@loop 9
    invariant ok(*$2, st, g), forall|k: int| 0 <= k < $c@.len() ==> bucket(u, component_validation_results@, component_validation_results@.len() as int, nested_validation_results@, nested_validation_results@.len() as int, (#[trigger] $c@[k]).0, $c@[k].1@),
@loopstart 9
    proof { lemma_right(st, g, s, *idx, u, component_validation_results@, nested_validation_results@, $c@[$i as int].0, $c@[$i as int].1@); }
@afterlet all_results
    let ghost cc = component_validation_results@;
    proof {
        assert(all_nested(st, g, s, u, nested_validation_results@));
        lemma_final(st, g, s, fs, u, h, cc, nested_validation_results@);
    }
    broadcast use lemma_cat_has;
@loopafter 10
    proof {
        let w = (h + cc) + $acc@;
        assert(results(st, g, s, fs, w));
        assert($3 matches Some(t) ==> t@ == fs);
        assert($3 is Some ==> results(st, g, s, $3->Some_0@, w));
        assert($3 is None ==> results_t(st, g, s, w));
    }
@loop 10
    invariant $c@ == nested_validation_results@, forall|x: ValidationResult| #[trigger] $acc@.contains(x) <==> fl(nested_validation_results@, $i as int, x),
@loopstart 10
    let ghost i10 = $i as int;
    proof { lemma_fl(nested_validation_results@, i10); }
@loop 11
    invariant $c@ == nested_validation_results@[i10].1@, forall|x: ValidationResult| #[trigger] $acc@.contains(x) <==> fl(nested_validation_results@, i10, x) || vbefore($c@, $i as int, x),
@loopstart 11
    proof { lemma_vbefore($c@, $i as int); }
    broadcast use lemma_push_has;
@loopafter 11
    proof { assert forall|x: ValidationResult| #[trigger] nested_validation_results@[i10].1@.contains(x) <==> vbefore($c@, $c@.len() as int, x) by {} }
@endfn
