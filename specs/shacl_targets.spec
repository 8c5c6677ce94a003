// ---- targets: the focus nodes a target declaration describes ----
@subst-type RDF::IRI IriS
@subst-type RDF::Subject Subj
@subst-type HashMap ClassMap
@erase-method map_err self
@remap-path RDF::subject_as_term vx_subj_ref_term
@remap-path Triple::into_subject vx_into_subject
@remap-path Triple::into_object vx_into_object
@remap-path Into::into vx_subj_term
@iter-result triples triples_with_predicate shacl_instances_of
@byval-iter triples_with_predicate shacl_instances_of targets
@iter-method instances_of
@iter-method subclasses_of
@seq-method subjects_for
#[verifier::external_body] pub struct Subj { x: u64 }
#[verifier::external_body] pub struct Triple { x: u64 }
pub uninterp spec fn tr_s(t: Triple) -> Subj;
pub uninterp spec fn tr_p(t: Triple) -> IriS;
pub uninterp spec fn tr_o(t: Triple) -> Term;
pub uninterp spec fn term_of_subj(s: Subj) -> Term;
pub uninterp spec fn term_of(o: Object) -> Term;
pub uninterp spec fn t_bnode(t: Term) -> bool;
/// the triple (s, p, o) is in the graph
pub uninterp spec fn has(st: Store, s: Subj, p: IriS, o: Term) -> bool;
pub uninterp spec fn up(st: Store) -> bool;
pub uninterp spec fn p_type() -> IriS;
pub uninterp spec fn p_sub() -> IriS;
/// terms and objects are two representations of the same RDF terms
#[verifier::external_body] pub broadcast proof fn axiom_terms(t: Term) ensures term_of(#[trigger] obj_of(t)) == t {}
#[verifier::external_body] pub proof fn axiom_vocab() ensures p_type() != p_sub() {}
#[verifier::external_body] pub fn vx_subj_term(s: Subj) -> (r: Term) ensures r == term_of_subj(s) { unimplemented!() }
#[verifier::external_body] pub fn vx_subj_ref_term(s: &Subj) -> (r: Term) ensures r == term_of_subj(*s) { unimplemented!() }
#[verifier::external_body] pub fn vx_into_subject(t: Triple) -> (r: Subj) ensures r == tr_s(t) { unimplemented!() }
#[verifier::external_body] pub fn vx_into_object(t: Triple) -> (r: Term) ensures r == tr_o(t) { unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IriS { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &IriS) -> bool { *self == *other } }
impl PartialEq for IriS { #[verifier::external_body] fn eq(&self, other: &IriS) -> (r: bool) { unimplemented!() } }
impl IriS { #[verifier::external_body] pub fn into(self) -> (r: IriS) ensures r == self { unimplemented!() } }
impl Object { #[verifier::external_body] pub fn into(self) -> (r: Term) ensures r == term_of(self) { unimplemented!() } }
impl Term { #[verifier::external_body] pub fn is_blank_node(&self) -> (r: bool) ensures r == t_bnode(*self) { unimplemented!() } }
impl Triple { #[verifier::external_body] pub fn into_components(&self) -> (r: (Subj, IriS, Term)) ensures r.0 == tr_s(*self), r.1 == tr_p(*self), r.2 == tr_o(*self) { unimplemented!() } }
pub struct RdfVocab; pub struct RdfsVocab;
impl RdfVocab { #[verifier::external_body] pub fn rdf_type() -> (r: IriS) ensures r == p_type() { unimplemented!() } }
impl RdfsVocab { #[verifier::external_body] pub fn rdfs_subclass_of_str() -> (r: IriS) ensures r == p_sub() { unimplemented!() } }
/// v holds exactly the triples of the graph with a predicate in p
pub open spec fn all_triples(st: Store, p: Option<IriS>, v: Seq<Triple>) -> bool {
    (forall|x: Subj, y: IriS, z: Term| #[trigger] has(st, x, y, z) && (p matches Some(q) ==> q == y) ==> exists|k: int| 0 <= k < v.len() && tr_s(#[trigger] v[k]) == x && tr_p(v[k]) == y && tr_o(v[k]) == z)
    && (forall|k: int| 0 <= k < v.len() ==> has(st, tr_s(#[trigger] v[k]), tr_p(v[k]), tr_o(v[k])) && (p matches Some(q) ==> q == tr_p(v[k])))
}
impl Store {
    #[verifier::external_body] pub fn triples(&self) -> (r: Result<Vec<Triple>, ValidationError>)
        ensures up(*self) ==> r is Ok, r is Ok ==> all_triples(*self, None, r->Ok_0@) { unimplemented!() }
    #[verifier::external_body] pub fn triples_with_predicate(&self, p: &IriS) -> (r: Result<Vec<Triple>, ValidationError>)
        ensures up(*self) ==> r is Ok, r is Ok ==> all_triples(*self, Some(*p), r->Ok_0@) { unimplemented!() }
    /// used without an index only, of which nothing is claimed
    #[verifier::external_body] pub fn shacl_instances_of(&self, c: &Term) -> (r: Result<Vec<Subj>, ValidationError>) { unimplemented!() }
    #[verifier::external_body] pub fn subjects_for(&self, p: &IriS, o: &Term) -> (r: Result<Vec<Term>, ValidationError>) { unimplemented!() }
}
// ---- sets of focus nodes and of objects ----
impl VxSeq for FocusNodes {
    type Item = Term;
    open spec fn items(self) -> Seq<Term> { self@ }
    #[verifier::external_body] fn vx_seq_items(self) -> (r: Vec<Term>) { unimplemented!() }
}
pub open spec fn fset(f: FocusNodes) -> ISet<Term> { ISet::new(|t: Term| f@.contains(t)) }
impl FocusNodes {
    #[verifier::external_body] pub fn vx_from_vec(v: Vec<Term>) -> (r: FocusNodes) ensures forall|t: Term| #[trigger] r@.contains(t) <==> v@.contains(t) { unimplemented!() }
    #[verifier::external_body] pub fn from_iter(v: Vec<Term>) -> (r: FocusNodes) ensures forall|t: Term| #[trigger] r@.contains(t) <==> v@.contains(t) { unimplemented!() }
}
#[verifier::external_body] pub struct ObjSet { x: u64 }
impl View for ObjSet { type V = ISet<Object>; uninterp spec fn view(&self) -> ISet<Object>; }
@subst-type HashSet ObjSet
impl ObjSet {
    #[verifier::external_body] pub fn new() -> (r: ObjSet) ensures r@ == ISet::<Object>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from(a: [&Object; 1]) -> (r: ObjSet) ensures r@ == ISet::<Object>::empty().insert(*a@[0]) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: &Object) -> (r: bool) ensures final(self)@ == old(self)@.insert(*v), r == !old(self)@.contains(*v) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, v: Vec<&Object>) ensures forall|x: Object| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) || vin(v@, x) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: &Vec<Object>) ensures forall|x: Object| #[trigger] self@.contains(x) <==> r@.contains(x) { unimplemented!() }
}
pub open spec fn vin(v: Seq<&Object>, x: Object) -> bool { exists|k: int| 0 <= k < v.len() && *(#[trigger] v[k]) == x }
@iter-via set vx_items
@iter-via instances vx_items
#[verifier::external_body] pub struct ClassMap { x: u64 }
/// the set a key is mapped to, empty when it is not in the map
pub uninterp spec fn at(m: ClassMap, k: Object) -> ISet<Object>;
impl ClassMap {
    #[verifier::external_body] pub fn new() -> (r: ClassMap) ensures forall|k: Object| #[trigger] at(r, k) == ISet::<Object>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Object) -> (r: Option<&ObjSet>) ensures r is None ==> at(*self, *k) == ISet::<Object>::empty(), r matches Some(s) ==> s@ == at(*self, *k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_insert_at(&mut self, k: Object, v: Object) ensures forall|c: Object| #[trigger] at(*final(self), c) == if c == k { at(*old(self), c).insert(v) } else { at(*old(self), c) } { unimplemented!() }
}
// ---- classes ----
pub open spec fn typ(st: Store, x: Object, p: IriS, c: Object) -> bool { exists|s: Subj, t: Term| #[trigger] has(st, s, p, t) && obj_of(term_of_subj(s)) == x && obj_of(t) == c }
@file shacl/src/validator/index/class.rs
@type struct ClassIndex
pub open spec fn index_of(i: ClassIndex, st: Store) -> bool {
    (forall|c: Object, x: Object| #[trigger] at(i.class_instances, c).contains(x) <==> typ(st, x, p_type(), c))
    && (forall|c: Object, x: Object| #[trigger] at(i.subclass_map, c).contains(x) <==> typ(st, x, p_sub(), c))
}
/// the triples before k with the predicate p say that x is typed c
pub open spec fn seen(v: Seq<Triple>, k: int, p: IriS, c: Object, x: Object) -> bool { exists|j: int| 0 <= j < k && tr_p(#[trigger] v[j]) == p && obj_of(term_of_subj(tr_s(v[j]))) == x && obj_of(tr_o(v[j])) == c }
pub proof fn lemma_seen_step(v: Seq<Triple>, k: int, p: IriS)
    requires 0 <= k < v.len()
    ensures forall|c: Object, x: Object| #[trigger] seen(v, k + 1, p, c, x) == (seen(v, k, p, c, x) || (tr_p(v[k]) == p && obj_of(term_of_subj(tr_s(v[k]))) == x && obj_of(tr_o(v[k])) == c))
{
    assert forall|c: Object, x: Object| #[trigger] seen(v, k + 1, p, c, x) == (seen(v, k, p, c, x) || (tr_p(v[k]) == p && obj_of(term_of_subj(tr_s(v[k]))) == x && obj_of(tr_o(v[k])) == c)) by {
        if seen(v, k + 1, p, c, x) { let j = choose|j: int| 0 <= j < k + 1 && tr_p(#[trigger] v[j]) == p && obj_of(term_of_subj(tr_s(v[j]))) == x && obj_of(tr_o(v[j])) == c; assert(j < k || j == k); }
        if seen(v, k, p, c, x) { let j = choose|j: int| 0 <= j < k && tr_p(#[trigger] v[j]) == p && obj_of(term_of_subj(tr_s(v[j]))) == x && obj_of(tr_o(v[j])) == c; assert(0 <= j < k + 1); }
    }
}
pub proof fn lemma_seen_all(st: Store, v: Seq<Triple>, p: IriS)
    requires all_triples(st, None, v)
    ensures forall|c: Object, x: Object| #[trigger] seen(v, v.len() as int, p, c, x) == typ(st, x, p, c)
{
    assert forall|c: Object, x: Object| #[trigger] seen(v, v.len() as int, p, c, x) == typ(st, x, p, c) by {
        if typ(st, x, p, c) { let (s, t) = choose|s: Subj, t: Term| #[trigger] has(st, s, p, t) && obj_of(term_of_subj(s)) == x && obj_of(t) == c; assert(has(st, s, p, t)); }
    }
}
/// a is reached from c by k subclass edges
pub open spec fn below(st: Store, k: nat, c: Object, a: Object) -> bool
    decreases k
{ if k == 0 { a == c } else { exists|b: Object| #[trigger] mid(b) && below(st, (k - 1) as nat, c, b) && typ(st, a, p_sub(), b) } }
pub open spec fn mid(b: Object) -> bool { true }
pub open spec fn tn(n: nat) -> bool { true }
pub open spec fn sub_of(st: Store, c: Object, a: Object) -> bool { exists|k: nat| #[trigger] tn(k) && below(st, k, c, a) }
/// x is a SHACL instance of the class c
pub open spec fn inst(st: Store, c: Object, x: Object) -> bool { exists|a: Object| #[trigger] sub_of(st, c, a) && typ(st, x, p_type(), a) }
pub proof fn lemma_sub_0(st: Store, c: Object) ensures sub_of(st, c, c) { assert(tn(0) && below(st, 0, c, c)); }
pub proof fn lemma_sub_step(st: Store, c: Object, b: Object, a: Object)
    requires sub_of(st, c, b), typ(st, a, p_sub(), b)
    ensures sub_of(st, c, a)
{ let k = choose|k: nat| #[trigger] tn(k) && below(st, k, c, b); assert(mid(b)); assert(below(st, k + 1, c, a)); assert(tn(k + 1)); }
pub proof fn lemma_vin_push(v: Seq<&Object>, o: &Object)
    ensures forall|x: Object| #[trigger] vin(v.push(o), x) <==> vin(v, x) || x == *o
{
    assert forall|x: Object| #[trigger] vin(v.push(o), x) <==> vin(v, x) || x == *o by {
        let w = v.push(o);
        if vin(v, x) { let k = choose|k: int| 0 <= k < v.len() && *(#[trigger] v[k]) == x; assert(*w[k] == x); }
        if x == *o { assert(*w[v.len() as int] == x); }
        if vin(w, x) { let k = choose|k: int| 0 <= k < w.len() && *(#[trigger] w[k]) == x; if k < v.len() { assert(*v[k] == x); } }
    }
}
pub open spec fn done(i: ClassIndex, b: Object, v: ISet<Object>) -> bool { forall|a: Object| #[trigger] at(i.subclass_map, b).contains(a) ==> v.contains(a) }
pub proof fn lemma_closed(st: Store, i: ClassIndex, v: ISet<Object>, k: nat, c: Object, a: Object)
    requires index_of(i, st), v.contains(c), forall|b: Object| v.contains(b) ==> #[trigger] done(i, b, v), below(st, k, c, a)
    ensures v.contains(a)
    decreases k
{
    if k > 0 {
        let b = choose|b: Object| #[trigger] mid(b) && below(st, (k - 1) as nat, c, b) && typ(st, a, p_sub(), b);
        lemma_closed(st, i, v, (k - 1) as nat, c, b);
        assert(done(i, b, v));
        assert(at(i.subclass_map, b).contains(a));
    }
}
/// the instances of the members of v
pub open spec fn insts(i: ClassIndex, v: ISet<Object>, x: Object) -> bool { exists|a: Object| v.contains(a) && #[trigger] at(i.class_instances, a).contains(x) }
@fn ClassIndex::build r
    ensures up(*$1) ==> r is Ok, r matches Ok(i) ==> index_of(i, *$1),
@loop 0
    invariant
        all_triples(*$1, None, $c@), rdf_type == p_type(), rdfs_subclass_of == p_sub(),
        forall|c: Object, x: Object| #[trigger] at(class_instances, c).contains(x) <==> seen($c@, $i as int, p_type(), c, x),
        forall|c: Object, x: Object| #[trigger] at(subclass_map, c).contains(x) <==> seen($c@, $i as int, p_sub(), c, x),
@loopstart 0
    proof { axiom_vocab(); lemma_seen_step($c@, $i as int, p_type()); lemma_seen_step($c@, $i as int, p_sub()); }
@loopafter 0
    proof { lemma_seen_all(*$1, $c@, p_type()); lemma_seen_all(*$1, $c@, p_sub()); }
@endfn
@fn ClassIndex::instances_of r
    ensures forall|x: Object| #[trigger] at(self.class_instances, *$1).contains(x) <==> vin(r@, x),
@ret Vec<&Object>
@boxiter
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant $i == 0 ==> $acc@.len() == 0, $i == 1 ==> $c@.len() == 1 && forall|x: Object| #[trigger] ($c@[0])@.contains(x) <==> vin($acc@, x),
@loop 1
    invariant forall|x: Object| #[trigger] vin($acc@, x) <==> exists|k: int| 0 <= k < $i && #[trigger] $c@[k] == x,
@loopstart 1
    let ghost a0 = $acc@;
    let ghost vi = $i as int;
@loopend 1
    proof { lemma_vin_push(a0, &$c@[vi]); }
@loopafter 0
    proof {
        assert forall|x: Object| #[trigger] at(self.class_instances, *$1).contains(x) <==> vin($acc@, x) by {
            if $c@.len() == 1 { assert(($c@[0])@ == at(self.class_instances, *$1)); assert(($c@[0])@.contains(x) <==> vin($acc@, x)); }
        }
    }
@endfn
@fn ClassIndex::subclasses_of r
    ensures forall|x: Object| #[trigger] at(self.subclass_map, *$1).contains(x) <==> vin(r@, x),
@ret Vec<&Object>
@boxiter
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant $i == 0 ==> $acc@.len() == 0, $i == 1 ==> $c@.len() == 1 && forall|x: Object| #[trigger] ($c@[0])@.contains(x) <==> vin($acc@, x),
@loop 1
    invariant forall|x: Object| #[trigger] vin($acc@, x) <==> exists|k: int| 0 <= k < $i && #[trigger] $c@[k] == x,
@loopstart 1
    let ghost a0 = $acc@;
    let ghost vi = $i as int;
@loopend 1
    proof { lemma_vin_push(a0, &$c@[vi]); }
@loopafter 0
    proof {
        assert forall|x: Object| #[trigger] at(self.subclass_map, *$1).contains(x) <==> vin($acc@, x) by {
            if $c@.len() == 1 { assert(($c@[0])@ == at(self.subclass_map, *$1)); assert(($c@[0])@.contains(x) <==> vin($acc@, x)); }
        }
    }
@endfn
@fn ClassIndex::instances_of_with_subclasses r
    ensures forall|st: Store, x: Object| #[trigger] index_of(*self, st) ==> (#[trigger] r@.contains(x) <==> inst(st, *$1, x)),
@collect 0 ObjSet insert
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
@loop 0
    invariant forall|x: Object| #[trigger] $acc@.contains(x) <==> exists|k: int| 0 <= k < $i && *(#[trigger] $c@[k]) == x,
@loopbefore 1
    proof {
        assert(pending@[0] == class);
        assert forall|x: Object| #[trigger] result@.contains(x) <==> insts(*self, visited@, x) by {
            assert(result@.contains(x) <==> at(self.class_instances, *$1).contains(x));
        }
        assert forall|st: Store, a: Object| #[trigger] index_of(*self, st) && #[trigger] visited@.contains(a) implies sub_of(st, *$1, a) by { lemma_sub_0(st, *$1); }
    }
@loop 1
    invariant visited@.contains(*$1),
        forall|k: int| 0 <= k < pending@.len() ==> visited@.contains(*(#[trigger] pending@[k])),
        forall|st: Store, a: Object| #[trigger] index_of(*self, st) && #[trigger] visited@.contains(a) ==> sub_of(st, *$1, a),
        forall|x: Object| #[trigger] result@.contains(x) <==> insts(*self, visited@, x),
        forall|b: Object| #[trigger] visited@.contains(b) ==> vin(pending@, b) || done(*self, b, visited@),
    ensures pending@.len() == 0,
@loopstart 1
    let ghost p0 = pending@;
@loopbefore 2
    proof {
        assert(current == p0[p0.len() - 1]);
        assert forall|b: Object| vin(p0, b) implies b == *current || vin(pending@, b) by {
            let k = choose|k: int| 0 <= k < p0.len() && *(#[trigger] p0[k]) == b;
            if k < p0.len() - 1 { assert(*pending@[k] == b); }
        }
    }
@loop 2
    invariant visited@.contains(*$1), visited@.contains(*current),
        forall|k: int| 0 <= k < pending@.len() ==> visited@.contains(*(#[trigger] pending@[k])),
        forall|st: Store, a: Object| #[trigger] index_of(*self, st) && #[trigger] visited@.contains(a) ==> sub_of(st, *$1, a),
        forall|x: Object| #[trigger] result@.contains(x) <==> insts(*self, visited@, x),
        forall|b: Object| #[trigger] visited@.contains(b) ==> b == *current || vin(pending@, b) || done(*self, b, visited@),
        forall|k: int| 0 <= k < $i ==> visited@.contains(*(#[trigger] $c@[k])),
@loopstart 2
    let ghost p1 = pending@;
    let ghost v1 = visited@;
    let ghost r1 = result@;
@loopend 2
    proof {
        let b = $c@[$i - 1];
        assert(vin($c@, *b));
        assert(at(self.subclass_map, *current).contains(*b));
        assert(visited@ =~= v1.insert(*b));
        if !v1.contains(*b) { assert(pending@ =~= p1.push(b)); assert(*pending@[p1.len() as int] == *b); lemma_vin_push(p1, b); } else { assert(visited@ =~= v1); }
        assert forall|st: Store, a: Object| #[trigger] index_of(*self, st) && #[trigger] visited@.contains(a) implies sub_of(st, *$1, a) by {
            if a == *b { assert(sub_of(st, *$1, *current)); lemma_sub_step(st, *$1, *current, *b); } else { assert(v1.contains(a)); }
        }
        assert forall|x: Object| #[trigger] result@.contains(x) <==> insts(*self, visited@, x) by {
            assert(r1.contains(x) <==> insts(*self, v1, x));
            if insts(*self, v1, x) { let a = choose|a: Object| v1.contains(a) && #[trigger] at(self.class_instances, a).contains(x); assert(visited@.contains(a)); }
            if insts(*self, visited@, x) { let a = choose|a: Object| visited@.contains(a) && #[trigger] at(self.class_instances, a).contains(x); assert(a == *b || v1.contains(a)); }
            assert(at(self.class_instances, *b).contains(x) ==> insts(*self, visited@, x));
        }
        assert forall|a: Object| done(*self, a, v1) implies done(*self, a, visited@) by {}
        assert forall|a: Object| #[trigger] visited@.contains(a) implies a == *current || vin(pending@, a) || done(*self, a, visited@) by {
            if a != *b { assert(v1.contains(a)); }
        }
    }
@loopafter 2
    proof {
        assert(done(*self, *current, visited@)) by {
            assert forall|a: Object| #[trigger] at(self.subclass_map, *current).contains(a) implies visited@.contains(a) by { assert(vin($c@, a)); }
        }
    }
@loopafter 1
    proof {
        assert forall|b: Object| visited@.contains(b) implies #[trigger] done(*self, b, visited@) by { assert(!vin(pending@, b)); }
        assert forall|st: Store, x: Object| #[trigger] index_of(*self, st) implies (#[trigger] result@.contains(x) <==> inst(st, *$1, x)) by {
            if insts(*self, visited@, x) { let a = choose|a: Object| visited@.contains(a) && #[trigger] at(self.class_instances, a).contains(x); assert(sub_of(st, *$1, a)); }
            if inst(st, *$1, x) {
                let a = choose|a: Object| #[trigger] sub_of(st, *$1, a) && typ(st, x, p_type(), a);
                let k = choose|k: nat| #[trigger] tn(k) && below(st, k, *$1, a);
                lemma_closed(st, *self, visited@, k, *$1, a);
                assert(at(self.class_instances, a).contains(x));
            }
        }
    }
@endfn
// ---- target declarations ----
@file shacl/src/types/target.rs
@type enum Target
impl ValidationError { #[verifier::external_body] pub fn target_bnode() -> ValidationError { unimplemented!() } }
@remap-path ValidationError::TargetNodeBNode vx_target_bnode()
#[verifier::external_body] pub fn vx_target_bnode() -> ValidationError { unimplemented!() }
@file shacl/src/validator/engine/native.rs
@type struct NativeEngine drop=cache
pub open spec fn subject_of(st: Store, p: IriS, t: Term) -> bool { exists|s: Subj, o: Term| #[trigger] has(st, s, p, o) && t == term_of_subj(s) }
pub open spec fn object_of(st: Store, p: IriS, t: Term) -> bool { exists|s: Subj| #[trigger] has(st, s, p, t) }
/// the node is in the target
pub open spec fn in_target(st: Store, g: Target, t: Term) -> bool {
    match g {
        Target::Node(n) => t == term_of(n) && !t_bnode(t),
        Target::Class(c) => inst(st, c, obj_of(t)),
        Target::ImplicitClass(c) => inst(st, c, obj_of(t)),
        Target::SubjectsOf(p) => subject_of(st, p, t),
        Target::ObjectsOf(p) => object_of(st, p, t),
        _ => false,
    }
}
/// not one of the markers for a malformed declaration
pub open spec fn wellformed(g: Target) -> bool { g is Node || g is Class || g is SubjectsOf || g is ObjectsOf || g is ImplicitClass }
pub open spec fn upto(st: Store, g: Seq<Target>, n: int, t: Term) -> bool { exists|k: int| 0 <= k < n && in_target(st, #[trigger] g[k], t) }
pub proof fn lemma_upto(st: Store, g: Seq<Target>, n: int)
    requires 0 <= n < g.len()
    ensures forall|t: Term| #[trigger] upto(st, g, n + 1, t) <==> upto(st, g, n, t) || in_target(st, g[n], t)
{
    assert forall|t: Term| #[trigger] upto(st, g, n + 1, t) <==> upto(st, g, n, t) || in_target(st, g[n], t) by {
        if upto(st, g, n, t) { let k = choose|k: int| 0 <= k < n && in_target(st, #[trigger] g[k], t); assert(0 <= k < n + 1); }
    }
}
pub proof fn lemma_push_in(v: Seq<Term>, x: Term) ensures forall|t: Term| #[trigger] v.push(x).contains(t) <==> v.contains(t) || t == x
{
    assert forall|t: Term| #[trigger] v.push(x).contains(t) <==> v.contains(t) || t == x by {
        let w = v.push(x);
        if v.contains(t) { let k = choose|k: int| 0 <= k < v.len() && v[k] == t; assert(w[k] == t); }
        if t == x { assert(w[v.len() as int] == t); }
        if w.contains(t) { let k = choose|k: int| 0 <= k < w.len() && w[k] == t; if k < v.len() { assert(v[k] == t); } }
    }
}
pub proof fn lemma_inst_term(st: Store, c: Object, x: Object)
    requires inst(st, c, x)
    ensures obj_of(term_of(x)) == x
{
    broadcast use axiom_terms;
    let a = choose|a: Object| #[trigger] sub_of(st, c, a) && typ(st, x, p_type(), a);
    let (s, t) = choose|s: Subj, t: Term| #[trigger] has(st, s, p_type(), t) && obj_of(term_of_subj(s)) == x && obj_of(t) == a;
    assert(term_of(obj_of(term_of_subj(s))) == term_of_subj(s));
}
/// the engine has an index of this graph
pub open spec fn ready(e: NativeEngine, st: Store) -> bool { e.class_index matches Some(i) && index_of(i, st) }
@drop-ident cache
pub type Arc<T> = T;
@fn NativeEngine::build_indexes_impl r
    ensures up(*$1) ==> r is Ok, r is Ok ==> ready(*final(self), *$1),
@endfn
@fn NativeEngine::target_node_impl r
    ensures r is Ok <==> !t_bnode(term_of(*$1)), r matches Ok(f) ==> forall|st: Store, t: Term| #[trigger] f@.contains(t) <==> #[trigger] in_target(st, Target::Node(*$1), t),
@start
    proof { assert forall|x: Term, y: Term| #[trigger] seq![x].contains(y) <==> x == y by { assert(seq![x][0] == x); } }
@endfn
@fn NativeEngine::target_class_impl r
    ensures ready(*self, *$1) ==> r is Ok && forall|t: Term| #[trigger] r->Ok_0@.contains(t) <==> in_target(*$1, Target::Class(*$2), t),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == term_of($c@[k]),
@loopafter 0
    proof {
        if ready(*self, *$1) {
            assert forall|t: Term| #[trigger] $acc@.contains(t) <==> inst(*$1, *$2, obj_of(t)) by {
                broadcast use axiom_terms;
                if $acc@.contains(t) { let k = choose|k: int| 0 <= k < $acc@.len() && $acc@[k] == t; assert($c@.contains($c@[k])); assert(instances@.contains($c@[k])); lemma_inst_term(*$1, *$2, $c@[k]); }
                if inst(*$1, *$2, obj_of(t)) { assert(instances@.contains(obj_of(t))); let k = choose|k: int| 0 <= k < $c@.len() && $c@[k] == obj_of(t); assert($acc@[k] == t); }
            }
        }
    }
@endfn
@fn NativeEngine::target_subject_of_impl r
    ensures up(*$1) ==> r is Ok, r matches Ok(f) ==> forall|t: Term| #[trigger] f@.contains(t) <==> in_target(*$1, Target::SubjectsOf(*$2), t),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant all_triples(*$1, Some(*$2), $c@), $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == term_of_subj(tr_s($c@[k])),
@loopafter 0
    proof {
        assert forall|t: Term| #[trigger] $acc@.contains(t) <==> subject_of(*$1, *$2, t) by {
            if $acc@.contains(t) { let k = choose|k: int| 0 <= k < $acc@.len() && $acc@[k] == t; let x = $c@[k]; assert(has(*$1, tr_s(x), tr_p(x), tr_o(x))); assert(tr_p(x) == *$2); assert(has(*$1, tr_s(x), *$2, tr_o(x))); }
            if subject_of(*$1, *$2, t) {
                let (s, o) = choose|s: Subj, o: Term| #[trigger] has(*$1, s, *$2, o) && t == term_of_subj(s);
                let k = choose|k: int| 0 <= k < $c@.len() && tr_s(#[trigger] $c@[k]) == s && tr_p($c@[k]) == *$2 && tr_o($c@[k]) == o;
                assert($acc@[k] == t);
            }
        }
    }
@endfn
@fn NativeEngine::target_object_of_impl r
    ensures up(*$1) ==> r is Ok, r matches Ok(f) ==> forall|t: Term| #[trigger] f@.contains(t) <==> in_target(*$1, Target::ObjectsOf(*$2), t),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant all_triples(*$1, Some(*$2), $c@), $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == tr_o($c@[k]),
@loopafter 0
    proof {
        assert forall|t: Term| #[trigger] $acc@.contains(t) <==> object_of(*$1, *$2, t) by {
            if $acc@.contains(t) { let k = choose|k: int| 0 <= k < $acc@.len() && $acc@[k] == t; let x = $c@[k]; assert(has(*$1, tr_s(x), tr_p(x), tr_o(x))); assert(tr_p(x) == *$2); assert(has(*$1, tr_s(x), *$2, tr_o(x))); }
            if object_of(*$1, *$2, t) {
                let s = choose|s: Subj| #[trigger] has(*$1, s, *$2, t);
                let k = choose|k: int| 0 <= k < $c@.len() && tr_s(#[trigger] $c@[k]) == s && tr_p($c@[k]) == *$2 && tr_o($c@[k]) == t;
                assert($acc@[k] == t);
            }
        }
    }
@endfn
@fn NativeEngine::implicit_target_class_impl r
    ensures ready(*self, *$1) ==> r is Ok && forall|t: Term| #[trigger] r->Ok_0@.contains(t) <==> in_target(*$1, Target::ImplicitClass(*$2), t),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == term_of($c@[k]),
@loopafter 0
    proof {
        if ready(*self, *$1) {
            assert forall|t: Term| #[trigger] $acc@.contains(t) <==> inst(*$1, *$2, obj_of(t)) by {
                broadcast use axiom_terms;
                if $acc@.contains(t) { let k = choose|k: int| 0 <= k < $acc@.len() && $acc@[k] == t; assert($c@.contains($c@[k])); assert(instances@.contains($c@[k])); lemma_inst_term(*$1, *$2, $c@[k]); }
                if inst(*$1, *$2, obj_of(t)) { assert(instances@.contains(obj_of(t))); let k = choose|k: int| 0 <= k < $c@.len() && $c@[k] == obj_of(t); assert($acc@[k] == t); }
            }
        }
    }
@endfn
@fn NativeEngine@Engine::target_node r
    ensures r is Ok <==> !t_bnode(term_of(*$2)), r matches Ok(f) ==> forall|t: Term| #[trigger] f@.contains(t) <==> in_target(*$1, Target::Node(*$2), t),
@endfn
@fn NativeEngine@Engine::target_class r
    ensures ready(*self, *$1) ==> r is Ok && forall|t: Term| #[trigger] r->Ok_0@.contains(t) <==> in_target(*$1, Target::Class(*$2), t),
@endfn
@fn NativeEngine@Engine::target_subject_of r
    ensures up(*$1) ==> r is Ok, r matches Ok(f) ==> forall|t: Term| #[trigger] f@.contains(t) <==> in_target(*$1, Target::SubjectsOf(*$2), t),
@endfn
@fn NativeEngine@Engine::target_object_of r
    ensures up(*$1) ==> r is Ok, r matches Ok(f) ==> forall|t: Term| #[trigger] f@.contains(t) <==> in_target(*$1, Target::ObjectsOf(*$2), t),
@endfn
@fn NativeEngine@Engine::implicit_target_class r
    ensures ready(*self, *$1) ==> r is Ok && forall|t: Term| #[trigger] r->Ok_0@.contains(t) <==> in_target(*$1, Target::ImplicitClass(*$2), t),
@endfn
@fn NativeEngine@Engine::build_indexes r
    ensures up(*$1) ==> r is Ok, r is Ok ==> ready(*final(self), *$1),
@endfn
@file shacl/src/validator/engine/mod.rs
@fn Engine::focus_nodes r
    requires up(*$1), ready(*self, *$1), forall|k: int| 0 <= k < $2@.len() ==> wellformed(#[trigger] $2@[k]),
    ensures r is Ok, forall|t: Term| #[trigger] r->Ok_0@.contains(t) <==> upto(*$1, $2@, $2@.len() as int, t),
@impl impl NativeEngine
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|t: Term| #[trigger] $acc@.contains(t) <==> upto(*$1, $2@, $i as int, t),
@loopstart 0
    let ghost a0 = $acc@;
    let ghost i0 = $i as int;
    proof { assert(wellformed($2@[i0])); }
@loop 1
    invariant i0 == $i@0 - 1, $c@.len() <= 1, $i == 0 ==> $acc@ == a0, $i == 1 ==> $c@.len() == 1 && forall|t: Term| #[trigger] $acc@.contains(t) <==> a0.contains(t) || ($c@[0])@.contains(t),
@loop 2
    invariant $i@1 == 1, $c@1.len() == 1, $c@ == ($c@1[0])@, forall|t: Term| #[trigger] $acc@.contains(t) <==> a0.contains(t) || $c@.subrange(0, $i as int).contains(t),
@loopstart 2
    let ghost a1 = $acc@;
    let ghost i1 = $i as int;
@loopend 2
    proof {
        assert($c@.subrange(0, i1 + 1) =~= $c@.subrange(0, i1).push($c@[i1]));
        lemma_push_in($c@.subrange(0, i1), $c@[i1]);
        assert($acc@ == a1.push($c@[i1]));
        lemma_push_in(a1, $c@[i1]);
    }
@loopafter 2
    proof { assert($c@.subrange(0, $c@.len() as int) =~= $c@); }
@loopafter 1
    proof {
        lemma_upto(*$1, $2@, i0);
        assert forall|t: Term| #[trigger] $acc@.contains(t) <==> upto(*$1, $2@, i0 + 1, t) by {
            assert(a0.contains(t) <==> upto(*$1, $2@, i0, t));
        }
    }
@endfn
