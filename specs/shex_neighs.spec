// ---- terms, triples, nodes: trusted ----
@subst-type Self::Term Term
@subst-type Self::IRI IriS
@subst-type Self::Subject Subj
@subst-type S::Term Term
@subst-type S::IRI IriS
@subst-type S::Subject Subj
@subst-type S Rdf
@subst-type OutgoingArcs ArcMap
@subst-type IncomingArcs InMap
@subst-type OutgoingArcsFromList OutList
@subst-type Neighs NeighList
@remap-path OutgoingArcs::<Self>::new ArcMap::new
@remap-path IncomingArcs::<Self>::new InMap::new
@remap-path S::term_as_subject term_as_subject
@erase-method map_err self
@erase-method as_str self
@erase-macro iri fn:vx_iri
#[verifier::external_body] pub struct Er { x: u64 }
#[verifier::external_body] pub struct Rdf { x: u64 }
#[verifier::external_body] pub struct Engine { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Node { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Term { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Subj { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct IriS { x: u64 }
pub struct Triple { pub subject: Subj, pub predicate: IriS, pub object: Term }
/// the IRI with that text
#[verifier::external_body] pub fn vx_iri(i: IriS) -> (r: IriS) ensures r == i { unimplemented!() }
impl Clone for IriS { #[verifier::external_body] fn clone(&self) -> (r: IriS) ensures r == *self { unimplemented!() } }
impl IriS { #[verifier::external_body] pub fn into(self) -> (r: IriS) ensures r == self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IriS { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &IriS) -> bool { *self == *other } }
impl PartialEq for IriS { #[verifier::external_body] fn eq(&self, other: &IriS) -> (r: bool) { unimplemented!() } }
pub assume_specification<T: PartialEq> [ <[T]>::contains ] (s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> (r <==> exists|i: int| 0 <= i < s@.len() && <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(#[trigger] &s@[i], x));
pub uninterp spec fn t_lit(t: Term) -> bool;
pub uninterp spec fn subj_of(t: Term) -> Subj;
pub uninterp spec fn term_of_subj(s: Subj) -> Term;
pub uninterp spec fn node_of(t: Term) -> Node;
pub uninterp spec fn term_of(n: Node) -> Term;
pub uninterp spec fn has(g: Rdf, s: Subj, p: IriS, o: Term) -> bool;
/// terms, subjects and nodes denote each other one to one
#[verifier::external_body] pub proof fn axiom_terms() ensures forall|a: Term, b: Term| #![trigger node_of(a), node_of(b)] node_of(a) == node_of(b) ==> a == b, forall|a: Subj, b: Subj| #![trigger term_of_subj(a), term_of_subj(b)] term_of_subj(a) == term_of_subj(b) ==> a == b {}
#[verifier::external_body] pub fn term_as_subject(t: &Term) -> (r: Result<Subj, Er>) ensures r is Ok <==> !t_lit(*t), r is Ok ==> r->Ok_0 == subj_of(*t) { unimplemented!() }
impl Subj { #[verifier::external_body] pub fn into(self) -> (r: Term) ensures r == term_of_subj(self) { unimplemented!() } }
pub open spec fn tr_s(t: Triple) -> Subj { t.subject }
pub open spec fn tr_p(t: Triple) -> IriS { t.predicate }
pub open spec fn tr_o(t: Triple) -> Term { t.object }
impl Clone for Term { #[verifier::external_body] fn clone(&self) -> (r: Term) ensures r == *self { unimplemented!() } }
impl Triple { #[verifier::external_body] pub fn into_components(&self) -> (r: (Subj, IriS, Term)) ensures r == (tr_s(*self), tr_p(*self), tr_o(*self)) { unimplemented!() } }
/// a position of a triple pattern
pub trait Pat<T> { spec fn fits(&self, x: T) -> bool; }
pub struct Any;
impl<T> Pat<T> for Any { open spec fn fits(&self, x: T) -> bool { true } }
impl Pat<Subj> for Subj { open spec fn fits(&self, x: Subj) -> bool { x == *self } }
impl Pat<IriS> for IriS { open spec fn fits(&self, x: IriS) -> bool { x == *self } }
impl Pat<Term> for Term { open spec fn fits(&self, x: Term) -> bool { x == *self } }
pub open spec fn hit<S: Pat<Subj>, P: Pat<IriS>, O: Pat<Term>>(st: Rdf, s: S, p: P, o: O, x: Subj, y: IriS, z: Term) -> bool { has(st, x, y, z) && s.fits(x) && p.fits(y) && o.fits(z) }
impl Rdf {
    /// the store returns exactly the matching triples
    #[verifier::external_body] pub fn triples_matching<S: Pat<Subj>, P: Pat<IriS>, O: Pat<Term>>(&self, s: &S, p: &P, o: &O) -> (r: Result<Vec<Triple>, Er>)
        ensures r is Ok ==> forall|x: Subj, y: IriS, z: Term| #[trigger] hit(*self, *s, *p, *o, x, y, z) ==> exists|k: int| 0 <= k < r->Ok_0@.len() && tr_s(#[trigger] r->Ok_0@[k]) == x && tr_p(r->Ok_0@[k]) == y && tr_o(r->Ok_0@[k]) == z,
            r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> hit(*self, *s, *p, *o, tr_s(#[trigger] r->Ok_0@[k]), tr_p(r->Ok_0@[k]), tr_o(r->Ok_0@[k])),
    { unimplemented!() }
}
// ---- maps from predicates to sets of terms or subjects: trusted ----
#[verifier::external_body] pub struct TermSet { x: u64 }
impl View for TermSet { type V = ISet<Term>; uninterp spec fn view(&self) -> ISet<Term>; }
impl TermSet { #[verifier::external_body] pub fn vx_into_items(&self) -> (r: Vec<Term>) ensures r@.no_duplicates(), forall|x: Term| #[trigger] r@.contains(x) <==> self@.contains(x) { unimplemented!() } }
#[verifier::external_body] pub struct SubjSet { x: u64 }
impl View for SubjSet { type V = ISet<Subj>; uninterp spec fn view(&self) -> ISet<Subj>; }
impl SubjSet { #[verifier::external_body] pub fn vx_into_items(&self) -> (r: Vec<Subj>) ensures r@.no_duplicates(), forall|x: Subj| #[trigger] r@.contains(x) <==> self@.contains(x) { unimplemented!() } }
#[verifier::external_body] pub struct ArcMap { x: u64 }
impl View for ArcMap { type V = ISet<(IriS, Term)>; uninterp spec fn view(&self) -> ISet<(IriS, Term)>; }
pub open spec fn entries_of(e: Seq<(IriS, TermSet)>, m: ISet<(IriS, Term)>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0)
    && (forall|i: int, o: Term| 0 <= i < e.len() && #[trigger] e[i].1@.contains(o) ==> m.contains((e[i].0, o)))
    && (forall|p: IriS, o: Term| #[trigger] m.contains((p, o)) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == p && e[i].1@.contains(o))
}
impl ArcMap {
    #[verifier::external_body] pub fn new() -> (r: ArcMap) ensures r@ == ISet::<(IriS, Term)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_insert_at(&mut self, k: IriS, v: Term) ensures final(self)@ == old(self)@.insert((k, v)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_entries(self) -> (r: Vec<(IriS, TermSet)>) ensures entries_of(r@, self@) { unimplemented!() }
}
#[verifier::external_body] pub struct InMap { x: u64 }
impl View for InMap { type V = ISet<(IriS, Subj)>; uninterp spec fn view(&self) -> ISet<(IriS, Subj)>; }
pub open spec fn in_entries_of(e: Seq<(IriS, SubjSet)>, m: ISet<(IriS, Subj)>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0)
    && (forall|i: int, o: Subj| 0 <= i < e.len() && #[trigger] e[i].1@.contains(o) ==> m.contains((e[i].0, o)))
    && (forall|p: IriS, o: Subj| #[trigger] m.contains((p, o)) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == p && e[i].1@.contains(o))
}
impl InMap {
    #[verifier::external_body] pub fn new() -> (r: InMap) ensures r@ == ISet::<(IriS, Subj)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_insert_at(&mut self, k: IriS, v: Subj) ensures final(self)@ == old(self)@.insert((k, v)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_entries(self) -> (r: Vec<(IriS, SubjSet)>) ensures in_entries_of(r@, self@) { unimplemented!() }
}
@file shex_ast/src/pred.rs
@type struct Pred
impl Clone for Pred { #[verifier::external_body] fn clone(&self) -> (r: Pred) ensures r == *self { unimplemented!() } }
@fn Pred::new r
    ensures r == (Pred { iri: $1, is_direct: $2 }),
@endfn
@fn Pred::iri r
    ensures *r == self.iri,
@endfn
@fn Pred::is_direct r
    ensures r == self.is_direct,
@endfn
@fn Pred@From<IriS>::from r
    ensures r == (Pred { iri: $1, is_direct: true }),
@endfn
pub type OutList = (ArcMap, Vec<IriS>);
pub type NeighList = (Vec<(Pred, Node)>, Vec<Pred>);
// ---- arcs of a node ----
@iter-result triples_with_subject
@byval-iter triples_with_subject
@iter-result triples_with_object
@byval-iter triples_with_object
@known triples_matching
@file rudof_rdf/src/rdf_core/neighs_rdf.rs
@fn NeighsRDF::triples_with_subject r
@impl impl Rdf
@ret Result<Vec<Triple>, Er>
    ensures r is Ok ==> forall|p: IriS, o: Term| #[trigger] has(*self, *$1, p, o) ==> exists|k: int| 0 <= k < r->Ok_0@.len() && tr_p(#[trigger] r->Ok_0@[k]) == p && tr_o(r->Ok_0@[k]) == o,
        r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> has(*self, *$1, tr_p(#[trigger] r->Ok_0@[k]), tr_o(r->Ok_0@[k])),
@leaf
    proof { assert forall|p: IriS, o: Term| vx_leaf is Ok && #[trigger] has(*self, *$1, p, o) implies exists|k: int| 0 <= k < vx_leaf->Ok_0@.len() && tr_p(#[trigger] vx_leaf->Ok_0@[k]) == p && tr_o(vx_leaf->Ok_0@[k]) == o by { assert(hit(*self, *$1, Any, Any, *$1, p, o)); } }
@endfn
@fn NeighsRDF::triples_with_object r
@impl impl Rdf
@ret Result<Vec<Triple>, Er>
    ensures r is Ok ==> forall|s: Subj, p: IriS| #[trigger] has(*self, s, p, *$1) ==> exists|k: int| 0 <= k < r->Ok_0@.len() && tr_p(#[trigger] r->Ok_0@[k]) == p && tr_s(r->Ok_0@[k]) == s,
        r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> has(*self, tr_s(#[trigger] r->Ok_0@[k]), tr_p(r->Ok_0@[k]), *$1),
@leaf
    proof { assert forall|s: Subj, p: IriS| vx_leaf is Ok && #[trigger] has(*self, s, p, *$1) implies exists|k: int| 0 <= k < vx_leaf->Ok_0@.len() && tr_p(#[trigger] vx_leaf->Ok_0@[k]) == p && tr_s(vx_leaf->Ok_0@[k]) == s by { assert(hit(*self, Any, Any, *$1, s, p, *$1)); } }
@endfn
@fn NeighsRDF::outgoing_arcs_from_list r
@impl impl Rdf
@ret Result<OutList, Er>
    ensures r is Ok ==> forall|p: IriS, o: Term| #[trigger] r->Ok_0.0@.contains((p, o)) <==> $2@.contains(p) && has(*self, *$1, p, o),
        r is Ok ==> forall|p: IriS| #[trigger] r->Ok_0.1@.contains(p) <==> !$2@.contains(p) && exists|o: Term| #[trigger] has(*self, *$1, p, o),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|p: IriS, o: Term| #[trigger] results@.contains((p, o)) <==> $2@.contains(p) && exists|k: int| 0 <= k < $i && tr_p(#[trigger] $c@[k]) == p && tr_o($c@[k]) == o,
        forall|p: IriS| #[trigger] reminder@.contains(p) <==> !$2@.contains(p) && exists|k: int| 0 <= k < $i && tr_p(#[trigger] $c@[k]) == p,
@loopstart 0
    let ghost vx_r0 = reminder@; let ghost vx_i0 = $i as int;
@loopend 0
    proof {
        let x = tr_p($c@[vx_i0]);
        assert forall|p: IriS| #[trigger] reminder@.contains(p) <==> vx_r0.contains(p) || (p == x && !$2@.contains(x)) by {
            if vx_r0.contains(p) { let i = choose|i: int| 0 <= i < vx_r0.len() && vx_r0[i] == p; assert(reminder@[i] == p); }
            if reminder@.contains(p) { let i = choose|i: int| 0 <= i < reminder@.len() && reminder@[i] == p; if i < vx_r0.len() { assert(vx_r0[i] == p); } }
            if !$2@.contains(x) { assert(reminder@[vx_r0.len() as int] == x); }
        }
    }
@endfn
@fn NeighsRDF::incoming_arcs_from_list r
@impl impl Rdf
@ret Result<InMap, Er>
    ensures r is Ok ==> forall|p: IriS, s: Subj| #[trigger] r->Ok_0@.contains((p, s)) <==> $2@.contains(p) && has(*self, s, p, *$1),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|p: IriS, s: Subj| #[trigger] results@.contains((p, s)) <==> $2@.contains(p) && exists|k: int| 0 <= k < $i && tr_p(#[trigger] $c@[k]) == p && tr_s($c@[k]) == s,
@endfn
pub proof fn lemma_push<A>(s: Seq<A>, x: A) ensures forall|y: A| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x, s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates()
{
    let r = s.push(x);
    assert forall|y: A| #[trigger] r.contains(y) <==> s.contains(y) || y == x by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(r[i] == y); }
        if r.contains(y) { let i = choose|i: int| 0 <= i < r.len() && r[i] == y; if i < s.len() { assert(s[i] == y); } }
        if y == x { assert(r[s.len() as int] == x); }
    }
    if s.no_duplicates() && !s.contains(x) {
        assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by { if a < s.len() && b < s.len() { assert(s[a] != s[b]); } else if a < s.len() { assert(s.contains(s[a])); } else { assert(s.contains(s[b])); } }
    }
}
pub open spec fn out_at(e: Seq<(IriS, TermSet)>, i: int, o: Term, p: Pred, v: Node) -> bool { p.is_direct && 0 <= i < e.len() && e[i].0 == p.iri && e[i].1@.contains(o) && v == node_of(o) }
pub open spec fn out_upto(e: Seq<(IriS, TermSet)>, k: int, p: Pred, v: Node) -> bool { exists|i: int, o: Term| i < k && #[trigger] out_at(e, i, o, p, v) }
pub open spec fn in_at(e: Seq<(IriS, SubjSet)>, i: int, o: Subj, p: Pred, v: Node) -> bool { !p.is_direct && 0 <= i < e.len() && e[i].0 == p.iri && e[i].1@.contains(o) && v == node_of(term_of_subj(o)) }
pub open spec fn in_upto(e: Seq<(IriS, SubjSet)>, k: int, p: Pred, v: Node) -> bool { exists|i: int, o: Subj| i < k && #[trigger] in_at(e, i, o, p, v) }
pub open spec fn has_ref(s: Seq<&Pred>, p: Pred) -> bool { exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == p }
pub open spec fn refs_ok(s: Seq<&Pred>, d: bool, ps: Seq<Pred>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).is_direct == d && ps.contains(*s[k]) }
// ---- the same for the store of the command line: one graph in memory (no endpoint in use) ----
pub enum RdfBackend { InMemory(Rdf), Endpoint(Endpoint) }
#[verifier::external_body] pub struct Endpoint { x: u64 }
impl Endpoint { #[verifier::external_body] pub fn outgoing_arcs_from_list(&self, s: &Subj, ps: &[IriS]) -> (r: Result<OutList, Er>) { unimplemented!() } }
/// the endpoints in use
#[verifier::external_body] pub struct Endpoints { x: u64 }
impl Endpoints { pub uninterp spec fn n(&self) -> nat; #[verifier::external_body] pub fn values(&self) -> (r: Vec<Endpoint>) ensures r@.len() == self.n() { unimplemented!() } }
impl ArcMap { #[verifier::external_body] pub fn vx_extend_at(&mut self, k: &IriS, v: &TermSet) ensures final(self)@ == old(self)@.union(ISet::new(|x: (IriS, Term)| x.0 == *k && v@.contains(x.1))) { unimplemented!() } }
pub struct RdfData { pub primary: RdfBackend, pub use_endpoints: Endpoints }
@subst-type OxNamedNode IriS
@iter-result values
@map-ident ep_results
@byval-iter ep_results
pub open spec fn out_ok(g: Rdf, s: Subj, ps: Seq<IriS>, r: OutList) -> bool {
    (forall|p: IriS, o: Term| #[trigger] r.0@.contains((p, o)) <==> ps.contains(p) && has(g, s, p, o)) && forall|p: IriS| #[trigger] r.1@.contains(p) <==> !ps.contains(p) && exists|o: Term| #[trigger] has(g, s, p, o)
}
impl RdfBackend {
    /// default method of the trait, proved above
    #[verifier::external_body] pub fn triples_with_subject(&self, s: &Subj) -> (r: Result<Vec<Triple>, Er>)
        ensures self is InMemory ==> r is Ok ==> forall|p: IriS, o: Term| #[trigger] has(self->InMemory_0, *s, p, o) ==> exists|k: int| 0 <= k < r->Ok_0@.len() && tr_p(#[trigger] r->Ok_0@[k]) == p && tr_o(r->Ok_0@[k]) == o,
            self is InMemory ==> r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> has(self->InMemory_0, *s, tr_p(#[trigger] r->Ok_0@[k]), tr_o(r->Ok_0@[k])) { unimplemented!() }
}
@known triples_with_subject
@remap-path std::collections::HashMap::new ArcMap::new
@file rudof_rdf/src/rdf_impl/backend.rs
@fn RdfBackend@NeighsRDF::outgoing_arcs_from_list r
@impl impl RdfBackend
@ret Result<OutList, Er>
    ensures self is InMemory && r is Ok ==> out_ok(self->InMemory_0, *$1, $2@, r->Ok_0),
@attrs #[verifier::loop_isolation(false)]
@letty results ArcMap
@loop 0
    invariant forall|p: IriS, o: Term| #[trigger] results@.contains((p, o)) <==> $2@.contains(p) && exists|k: int| 0 <= k < $i && tr_p(#[trigger] $c@[k]) == p && tr_o($c@[k]) == o,
        forall|p: IriS| #[trigger] reminder@.contains(p) <==> !$2@.contains(p) && exists|k: int| 0 <= k < $i && tr_p(#[trigger] $c@[k]) == p,
@loopstart 0
    let ghost vx_r0 = reminder@; let ghost vx_i0 = $i as int;
@loopend 0
    proof { lemma_push(vx_r0, tr_p($c@[vx_i0])); }
@endfn
@file sparql_service/src/srdf_data/rdf_data.rs
@fn RdfData@NeighsRDF::outgoing_arcs_from_list r
@impl impl RdfData
@ret Result<OutList, Er>
    requires self.use_endpoints.n() == 0,
    ensures self.primary is InMemory && r is Ok ==> out_ok(self.primary->InMemory_0, *$1, $2@, r->Ok_0),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant self.use_endpoints.n() == 0, $c@.len() == 0, self.primary is InMemory ==> out_ok(self.primary->InMemory_0, *$1, $2@, (results, reminder)),
@endfn
// ---- the neighbourhood: every arc once ----
pub open spec fn has_arc(g: Rdf, n: Node, p: Pred, v: Node) -> bool {
    if p.is_direct { !t_lit(term_of(n)) && exists|o: Term| #[trigger] has(g, subj_of(term_of(n)), p.iri, o) && v == node_of(o) }
    else { exists|s: Subj| #[trigger] has(g, s, p.iri, term_of(n)) && v == node_of(term_of_subj(s)) }
}
impl Engine {
    #[verifier::external_body] pub fn get_rdf_node(&self, n: &Node, g: &Rdf) -> (r: Term) ensures r == term_of(*n) { unimplemented!() }
    #[verifier::external_body] pub fn cnv_object(&self, t: &Term) -> (r: Result<Node, Er>) ensures r is Ok ==> r->Ok_0 == node_of(*t) { unimplemented!() }
}
@known get_rdf_node
@known cnv_object
@map-ident outgoing_arcs incoming_arcs
@byval-iter outgoing_arcs incoming_arcs values subjects
@iter-via values vx_into_items
@iter-via subjects vx_into_items
@file shex_validation/src/engine.rs
@fn Engine::cnv_iri r
    ensures r == (Pred { iri: $1, is_direct: true }),
@endfn
@fn Engine::cnv_inverse_iri r
    ensures r == (Pred { iri: $1, is_direct: false }),
@endfn
@fn Engine::neighs r
@ret Result<NeighList, Er>
    ensures r is Ok ==> r->Ok_0.0@.no_duplicates(),
        r is Ok ==> forall|p: Pred, v: Node| #[trigger] r->Ok_0.0@.contains((p, v)) <==> $2@.contains(p) && has_arc(*$3, *$1, p, v),
        r is Ok ==> forall|q: Pred| #[trigger] r->Ok_0.1@.contains(q) <==> q.is_direct && !$2@.contains(q) && exists|v: Node| #[trigger] has_arc(*$3, *$1, q, v),
@attrs #[verifier::loop_isolation(false)]
@start
    let ghost vx_n = *$1; let ghost vx_ps = $2@; let ghost vx_g = *$3;
    proof { axiom_terms(); }
@loop 0
    invariant refs_ok($acc.0@, true, vx_ps), refs_ok($acc.1@, false, vx_ps),
        forall|k: int| 0 <= k < $i ==> (if (#[trigger] vx_ps[k]).is_direct { has_ref($acc.0@, vx_ps[k]) } else { has_ref($acc.1@, vx_ps[k]) }),
@loopstart 0
    let ghost vx_a0: Seq<&Pred> = $acc.0@; let ghost vx_a1: Seq<&Pred> = $acc.1@; let ghost vx_i0 = $i as int;
@loopend 0
    proof {
        let x = vx_ps[vx_i0];
        assert(vx_ps.contains(x));
        assert forall|p: Pred| has_ref(vx_a0, p) implies has_ref($acc.0@, p) by { let i = choose|i: int| 0 <= i < vx_a0.len() && *(#[trigger] vx_a0[i]) == p; assert(*$acc.0@[i] == p); }
        assert forall|p: Pred| has_ref(vx_a1, p) implies has_ref($acc.1@, p) by { let i = choose|i: int| 0 <= i < vx_a1.len() && *(#[trigger] vx_a1[i]) == p; assert(*$acc.1@[i] == p); }
        if x.is_direct { assert(*$acc.0@[vx_a0.len() as int] == x); } else { assert(*$acc.1@[vx_a1.len() as int] == x); }
    }
@loop 1
    invariant $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == outgoing_preds@[k].iri,
@loopafter 1
    proof {
        assert forall|x: IriS| #[trigger] $acc@.contains(x) <==> vx_ps.contains(Pred { iri: x, is_direct: true }) by {
            let p = Pred { iri: x, is_direct: true };
            if $acc@.contains(x) { let k = choose|k: int| 0 <= k < $acc@.len() && $acc@[k] == x; assert(*outgoing_preds@[k] == p); }
            if vx_ps.contains(p) { let k = choose|k: int| 0 <= k < vx_ps.len() && vx_ps[k] == p; assert(has_ref(outgoing_preds@, vx_ps[k])); let i = choose|i: int| 0 <= i < outgoing_preds@.len() && *(#[trigger] outgoing_preds@[i]) == p; assert($acc@[i] == x); }
        }
    }
@loop 2
    invariant $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == incoming_preds@[k].iri,
@loopafter 2
    proof {
        assert forall|x: IriS| #[trigger] $acc@.contains(x) <==> vx_ps.contains(Pred { iri: x, is_direct: false }) by {
            let p = Pred { iri: x, is_direct: false };
            if $acc@.contains(x) { let k = choose|k: int| 0 <= k < $acc@.len() && $acc@[k] == x; assert(*incoming_preds@[k] == p); }
            if vx_ps.contains(p) { let k = choose|k: int| 0 <= k < vx_ps.len() && vx_ps[k] == p; assert(has_ref(incoming_preds@, vx_ps[k])); let i = choose|i: int| 0 <= i < incoming_preds@.len() && *(#[trigger] incoming_preds@[i]) == p; assert($acc@[i] == x); }
        }
    }
@loop 3
    invariant result@.no_duplicates(), forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> out_upto($c@, $i as int, p, v),
@loopstart 3
    let ghost vx_r0 = result@; let ghost vx_i0 = $i as int; let ghost vx_p = Pred { iri: $c@[vx_i0].0, is_direct: true }; let ghost vx_e = $c@;
    proof { assert forall|v: Node| !vx_r0.contains((vx_p, v)) by { if vx_r0.contains((vx_p, v)) { let (i, o) = choose|i: int, o: Term| i < vx_i0 && #[trigger] out_at(vx_e, i, o, vx_p, v); assert(vx_e[i].0 != vx_e[vx_i0].0); } } }
@loop 4
    invariant result@.no_duplicates(), $c@.no_duplicates(), forall|x: Term| #[trigger] $c@.contains(x) <==> vx_e[vx_i0].1@.contains(x),
        forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> vx_r0.contains((p, v)) || (p == vx_p && exists|m: int| 0 <= m < $i && v == node_of(#[trigger] $c@[m])),
@loopstart 4
    let ghost vx_r1 = result@; let ghost vx_i1 = $i as int;
@loopend 4
    proof {
        axiom_terms();
        let x = (vx_p, node_of($c@[vx_i1]));
        lemma_push(vx_r1, x);
        assert(!vx_r1.contains((x.0, x.1)));
        assert(result@ == vx_r1.push(x));
        assert forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> vx_r0.contains((p, v)) || (p == vx_p && exists|m: int| 0 <= m < $i && v == node_of(#[trigger] $c@[m])) by { assert(vx_r1.contains((p, v)) <==> vx_r0.contains((p, v)) || (p == vx_p && exists|m: int| 0 <= m < vx_i1 && v == node_of(#[trigger] $c@[m]))); if (p, v) == x { assert(v == node_of($c@[vx_i1])); } }
    }
@loopafter 4
    proof {
        assert forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> out_upto(vx_e, vx_i0 + 1, p, v) by {
            if out_upto(vx_e, vx_i0 + 1, p, v) { let (i, o) = choose|i: int, o: Term| i < vx_i0 + 1 && #[trigger] out_at(vx_e, i, o, p, v); if i < vx_i0 { assert(out_at(vx_e, i, o, p, v)); assert(vx_r0.contains((p, v))); } else { assert(p == vx_p); assert($c@.contains(o)); let m = choose|m: int| 0 <= m < $c@.len() && $c@[m] == o; assert(v == node_of($c@[m])); } }
            if vx_r0.contains((p, v)) { let (i, o) = choose|i: int, o: Term| i < vx_i0 && #[trigger] out_at(vx_e, i, o, p, v); assert(out_at(vx_e, i, o, p, v)); }
            if p == vx_p && exists|m: int| 0 <= m < $c@.len() && v == node_of(#[trigger] $c@[m]) { let m = choose|m: int| 0 <= m < $c@.len() && v == node_of(#[trigger] $c@[m]); assert($c@.contains($c@[m])); assert(out_at(vx_e, vx_i0, $c@[m], p, v)); }
        }
    }
@loopafter 3
    proof {
        assert forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> p.is_direct && vx_ps.contains(p) && has_arc(vx_g, vx_n, p, v) by {
            if result@.contains((p, v)) { let (i, o) = choose|i: int, o: Term| i < $c@.len() && #[trigger] out_at($c@, i, o, p, v); assert(outgoing_arcs@.contains(($c@[i].0, o))); assert(has(vx_g, subj_of(term_of(vx_n)), p.iri, o)); assert(outgoing_iris@.contains(p.iri)); }
            if p.is_direct && vx_ps.contains(p) && has_arc(vx_g, vx_n, p, v) { let o = choose|o: Term| #[trigger] has(vx_g, subj_of(term_of(vx_n)), p.iri, o) && v == node_of(o); assert(outgoing_iris@.contains(p.iri)); assert(outgoing_arcs@.contains((p.iri, o))); let i = choose|i: int| 0 <= i < $c@.len() && (#[trigger] $c@[i]).0 == p.iri && $c@[i].1@.contains(o); assert(out_at($c@, i, o, p, v)); assert(out_upto($c@, $c@.len() as int, p, v)); }
        }
    }
@loop 5
    invariant forall|q: Pred| #[trigger] reminder_preds@.contains(q) <==> q.is_direct && exists|k: int| 0 <= k < $i && #[trigger] reminder@[k] == q.iri,
@loopstart 5
    let ghost vx_m0 = reminder_preds@; let ghost vx_i5 = $i as int;
@loopend 5
    proof { lemma_push(vx_m0, Pred { iri: reminder@[vx_i5], is_direct: true }); }
@loopafter 5
    proof {
        let vx_s = subj_of(term_of(vx_n));
        assert forall|q: Pred| #[trigger] reminder_preds@.contains(q) <==> q.is_direct && !vx_ps.contains(q) && exists|v: Node| #[trigger] has_arc(vx_g, vx_n, q, v) by {
            if reminder_preds@.contains(q) { let k = choose|k: int| 0 <= k < reminder@.len() && #[trigger] reminder@[k] == q.iri; assert(reminder@.contains(q.iri)); let o = choose|o: Term| #[trigger] has(vx_g, vx_s, q.iri, o); assert(has_arc(vx_g, vx_n, q, node_of(o))); assert(!outgoing_iris@.contains(q.iri)); }
            if q.is_direct && !vx_ps.contains(q) && exists|v: Node| #[trigger] has_arc(vx_g, vx_n, q, v) { let v = choose|v: Node| #[trigger] has_arc(vx_g, vx_n, q, v); let o = choose|o: Term| #[trigger] has(vx_g, vx_s, q.iri, o) && v == node_of(o); assert(!outgoing_iris@.contains(q.iri)); assert(reminder@.contains(q.iri)); }
        }
    }
@afterlet incoming_arcs
    let ghost vx_out = result@;
    proof { assert forall|p: Pred, v: Node| #[trigger] vx_out.contains((p, v)) <==> p.is_direct && vx_ps.contains(p) && has_arc(vx_g, vx_n, p, v) by { } }
@loop 6
    invariant result@.no_duplicates(), forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> vx_out.contains((p, v)) || in_upto($c@, $i as int, p, v),
@loopstart 6
    let ghost vx_r0 = result@; let ghost vx_i0 = $i as int; let ghost vx_p = Pred { iri: $c@[vx_i0].0, is_direct: false }; let ghost vx_e = $c@;
    proof { assert forall|v: Node| !vx_r0.contains((vx_p, v)) by { assert(!vx_out.contains((vx_p, v))); if vx_r0.contains((vx_p, v)) { let (i, o) = choose|i: int, o: Subj| i < vx_i0 && #[trigger] in_at(vx_e, i, o, vx_p, v); assert(vx_e[i].0 != vx_e[vx_i0].0); } } }
@loop 7
    invariant result@.no_duplicates(), $c@.no_duplicates(), forall|x: Subj| #[trigger] $c@.contains(x) <==> vx_e[vx_i0].1@.contains(x),
        forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> vx_r0.contains((p, v)) || (p == vx_p && exists|m: int| 0 <= m < $i && v == node_of(term_of_subj(#[trigger] $c@[m]))),
@loopstart 7
    let ghost vx_r1 = result@; let ghost vx_i1 = $i as int;
@loopend 7
    proof {
        axiom_terms();
        let x = (vx_p, node_of(term_of_subj($c@[vx_i1])));
        lemma_push(vx_r1, x);
        assert(!vx_r1.contains((x.0, x.1)));
        assert(result@ == vx_r1.push(x));
        assert forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> vx_r0.contains((p, v)) || (p == vx_p && exists|m: int| 0 <= m < $i && v == node_of(term_of_subj(#[trigger] $c@[m]))) by { assert(vx_r1.contains((p, v)) <==> vx_r0.contains((p, v)) || (p == vx_p && exists|m: int| 0 <= m < vx_i1 && v == node_of(term_of_subj(#[trigger] $c@[m])))); if (p, v) == x { assert(v == node_of(term_of_subj($c@[vx_i1]))); } }
    }
@loopafter 7
    proof {
        assert forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> vx_out.contains((p, v)) || in_upto(vx_e, vx_i0 + 1, p, v) by {
            if in_upto(vx_e, vx_i0 + 1, p, v) { let (i, o) = choose|i: int, o: Subj| i < vx_i0 + 1 && #[trigger] in_at(vx_e, i, o, p, v); if i < vx_i0 { assert(in_at(vx_e, i, o, p, v)); assert(vx_r0.contains((p, v))); } else { assert(p == vx_p); assert($c@.contains(o)); let m = choose|m: int| 0 <= m < $c@.len() && $c@[m] == o; assert(v == node_of(term_of_subj($c@[m]))); } }
            if vx_r0.contains((p, v)) && !vx_out.contains((p, v)) { let (i, o) = choose|i: int, o: Subj| i < vx_i0 && #[trigger] in_at(vx_e, i, o, p, v); assert(in_at(vx_e, i, o, p, v)); }
            if p == vx_p && exists|m: int| 0 <= m < $c@.len() && v == node_of(term_of_subj(#[trigger] $c@[m])) { let m = choose|m: int| 0 <= m < $c@.len() && v == node_of(term_of_subj(#[trigger] $c@[m])); assert($c@.contains($c@[m])); assert(in_at(vx_e, vx_i0, $c@[m], p, v)); }
        }
    }
@loopafter 6
    proof {
        assert forall|p: Pred, v: Node| #[trigger] result@.contains((p, v)) <==> vx_ps.contains(p) && has_arc(vx_g, vx_n, p, v) by {
            if in_upto($c@, $c@.len() as int, p, v) { let (i, o) = choose|i: int, o: Subj| i < $c@.len() && #[trigger] in_at($c@, i, o, p, v); assert(incoming_arcs@.contains(($c@[i].0, o))); assert(has(vx_g, o, p.iri, term_of(vx_n))); assert(incoming_iris@.contains(p.iri)); }
            if !p.is_direct && vx_ps.contains(p) && has_arc(vx_g, vx_n, p, v) { let o = choose|o: Subj| #[trigger] has(vx_g, o, p.iri, term_of(vx_n)) && v == node_of(term_of_subj(o)); assert(incoming_iris@.contains(p.iri)); assert(incoming_arcs@.contains((p.iri, o))); let i = choose|i: int| 0 <= i < $c@.len() && (#[trigger] $c@[i]).0 == p.iri && $c@[i].1@.contains(o); assert(in_at($c@, i, o, p, v)); assert(in_upto($c@, $c@.len() as int, p, v)); }
        }
    }
@leaf
    proof {
        if incoming_iris@.len() == 0 { assert forall|p: Pred| #[trigger] vx_ps.contains(p) implies p.is_direct by { if !p.is_direct { assert(incoming_iris@.contains(p.iri)); } } }
    }
@endfn
