// ---- property pair constraints: values of a property of the focus node, from the store ----
@iter-via prop_values vx_items
@iter-result triples_with_subject_predicate
@erase-method map_err self
#[verifier::external_body] pub struct Triple { x: u64 }
pub uninterp spec fn tr_obj(t: Triple) -> Term;
/// the triples with a given subject and predicate, in the store's order
pub uninterp spec fn triples_sp(s: Store, f: Subj, p: IriS) -> Seq<Triple>;
impl Triple { #[verifier::external_body] pub fn obj(&self) -> (r: &Term) ensures *r == tr_obj(*self) { unimplemented!() } }
impl Store {
    #[verifier::external_body] pub fn triples_with_subject_predicate(&self, f: &Subj, p: &IriS) -> (r: Result<Vec<Triple>, ValidationError>) ensures r is Ok, r->Ok_0@ == triples_sp(*self, *f, *p) { unimplemented!() }
}
impl IriS { #[verifier::external_body] pub fn into(self) -> (r: IriS) ensures r == self { unimplemented!() } }
pub open spec fn ord_is_ge(o: Option<core::cmp::Ordering>) -> bool { match o { Some(x) => x != core::cmp::Ordering::Less, None => true } }
pub open spec fn ord_is_gt(o: Option<core::cmp::Ordering>) -> bool { match o { Some(x) => x == core::cmp::Ordering::Greater, None => true } }
/// a set of terms
#[verifier::external_body] pub struct TermSet { x: u64 }
impl View for TermSet { type V = ISet<Term>; uninterp spec fn view(&self) -> ISet<Term>; }
impl TermSet {
    #[verifier::external_body] pub fn new() -> (r: TermSet) ensures r@ == ISet::<Term>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: Term) -> (r: bool) ensures final(self)@ == old(self)@.insert(v) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, v: &Term) -> (r: bool) ensures r == self@.contains(*v) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: &Vec<Term>) ensures forall|x: Term| r@.contains(x) <==> self@.contains(x) { unimplemented!() }
}
/// a set of references to terms
#[verifier::external_body] pub struct TermRefSet { x: u64 }
impl View for TermRefSet { type V = ISet<Term>; uninterp spec fn view(&self) -> ISet<Term>; }
impl TermRefSet {
    #[verifier::external_body] pub fn new() -> (r: TermRefSet) ensures r@ == ISet::<Term>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: &Term) -> (r: bool) ensures final(self)@ == old(self)@.insert(*v) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, v: &Term) -> (r: bool) ensures r == self@.contains(*v) { unimplemented!() }
}
@subst-type HashSet TermSet
// ---- order of values ----
use core::cmp::Ordering;
pub uninterp spec fn has_lang(l: ConcreteLiteral) -> bool;
#[verifier::external_body] pub struct Lang { x: u64 }
impl ConcreteLiteral {
    #[verifier::external_body] pub fn lang(&self) -> (r: Option<&Lang>) ensures r is Some <==> has_lang(*self) { unimplemented!() }
}
/// only literals without language tag are ordered
pub open spec fn cmp_spec(a: Object, b: Object) -> Option<core::cmp::Ordering> {
    match (a, b) { (Object::Literal(x), Object::Literal(y)) => if has_lang(x) || has_lang(y) { None } else { slit_cmp(x, y) }, _ => None }
}
@file shacl/src/validator/constraints/core/property_pair/mod.rs
@fn compare_values r
    ensures r == cmp_spec(*$1, *$2),
@endfn
/// one result per value of the property and value node for which `bad` holds (positions before (k, j)), after the results e
pub open spec fn pair_in(e: Seq<ValidationResult>, f: Term, os: Seq<Triple>, ns: Seq<Term>, k: int, j: int, bad: spec_fn(Object, Object) -> bool, comp: Object, sh: IRShape, path: Option<&SHACLPath>) -> Seq<ValidationResult>
    decreases k, j
{
    if k < 0 || (k == 0 && j <= 0) { e }
    else if j <= 0 { pair_in(e, f, os, ns, k - 1, ns.len() as int, bad, comp, sh, path) }
    else {
        let p = pair_in(e, f, os, ns, k, j - 1, bad, comp, sh, path);
        if bad(obj_of(ns[j - 1]), obj_of(tr_obj(os[k]))) { p.push(vresult(f, comp, sh, path, Some(obj_of(ns[j - 1])))) } else { p }
    }
}
pub open spec fn pair_all(st: Store, p: IriS, vn: Seq<(Term, FocusNodes)>, i: int, bad: spec_fn(Object, Object) -> bool, comp: Object, sh: IRShape, path: Option<&SHACLPath>) -> Seq<ValidationResult>
    decreases i
{
    if i <= 0 { Seq::empty() }
    else {
        let e = pair_all(st, p, vn, i - 1, bad, comp, sh, path);
        let f = vn[i - 1].0;
        if t_lit(f) { e } else { let os = triples_sp(st, subj_of(f), p); pair_in(e, f, os, vn[i - 1].1@, os.len() as int, 0, bad, comp, sh, path) }
    }
}
@file shacl/src/ir/components/less_than.rs
@type struct LessThan
@fn LessThan::iri r
    ensures *r == self.iri,
@endfn
/// a value node has to be less than every value of the property
@file shacl/src/validator/constraints/core/property_pair/less_than.rs
@fn LessThan@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == pair_all(*$3, self.iri, $5@, $5@.len() as int, |a: Object, b: Object| ord_is_ge(cmp_spec(a, b)), obj_of_iri(iri_of(*$1)), *$2, $7),
@argty 4 &mut EngineX
@rename validate_less_than
@start
    let ghost vx_bad = |a: Object, b: Object| ord_is_ge(cmp_spec(a, b));
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant validation_results@ == pair_all(*$3, self.iri, $c@, $i as int, vx_bad, vx_co, *$2, $7), $c@ == $5@,
@loop 1
    invariant validation_results@ == pair_in(pair_all(*$3, self.iri, $c@0@, $i@0 - 1, vx_bad, vx_co, *$2, $7), *fnode, $c@, nodes@, $i as int, 0, vx_bad, vx_co, *$2, $7),
        $c@ == triples_sp(*$3, subj_of(*fnode), self.iri), fnode_obj == obj_of(*fnode),
@loop 2
    invariant validation_results@ == pair_in(pair_all(*$3, self.iri, $c@0@, $i@0 - 1, vx_bad, vx_co, *$2, $7), *fnode, $c@1@, nodes@, $i@1 - 1, $i as int, vx_bad, vx_co, *$2, $7),
        $c@ == nodes@, $i@1 >= 1, node1 == obj_of(tr_obj($c@1@[$i@1 - 1])),
@attrs #[verifier::loop_isolation(false)]
@endfn
@file shacl/src/ir/components/less_than_or_equals.rs
@type struct LessThanOrEquals
@fn LessThanOrEquals::iri r
    ensures *r == self.iri,
@endfn
/// a value node has to be less than or equal to every value of the property
@file shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@fn LessThanOrEquals@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == pair_all(*$3, self.iri, $5@, $5@.len() as int, |a: Object, b: Object| ord_is_gt(cmp_spec(a, b)), obj_of_iri(iri_of(*$1)), *$2, $7),
@argty 4 &mut EngineX
@rename validate_less_than_or_equals
@start
    let ghost vx_bad = |a: Object, b: Object| ord_is_gt(cmp_spec(a, b));
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant validation_results@ == pair_all(*$3, self.iri, $c@, $i as int, vx_bad, vx_co, *$2, $7), $c@ == $5@,
@loop 1
    invariant validation_results@ == pair_in(pair_all(*$3, self.iri, $c@0@, $i@0 - 1, vx_bad, vx_co, *$2, $7), *fnode, $c@, nodes@, $i as int, 0, vx_bad, vx_co, *$2, $7),
        $c@ == triples_sp(*$3, subj_of(*fnode), self.iri), fnode_obj == obj_of(*fnode),
@loop 2
    invariant validation_results@ == pair_in(pair_all(*$3, self.iri, $c@0@, $i@0 - 1, vx_bad, vx_co, *$2, $7), *fnode, $c@1@, nodes@, $i@1 - 1, $i as int, vx_bad, vx_co, *$2, $7),
        $c@ == nodes@, $i@1 >= 1, node1 == obj_of(tr_obj($c@1@[$i@1 - 1])),
@attrs #[verifier::loop_isolation(false)]
@endfn
@file shacl/src/ir/components/disjoint.rs
@type struct Disjoint
@fn Disjoint::iri r
    ensures *r == self.iri,
@endfn
/// a value node that is also a value of the property
pub open spec fn tvals(st: &Store, f: &Term, p: &IriS) -> Seq<Triple> { triples_sp(*st, subj_of(*f), *p) }
pub open spec fn bad_disjoint(st: Store, p: IriS, f: Term, v: Term) -> bool {
    !t_lit(f) && exists|k: int| 0 <= k < triples_sp(st, subj_of(f), p).len() && obj_of(v) == obj_of(tr_obj(#[trigger] triples_sp(st, subj_of(f), p)[k]))
}
@file shacl/src/validator/constraints/core/property_pair/disjoint.rs
@fn Disjoint@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_disjoint(*$3, self.iri, f, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_disjoint
@closure 0
    -> (r: bool) ensures r == bad_disjoint(*$3, self.iri, *f, *vn)
@loop 0
    invariant forall|k: int| 0 <= k < $i ==> obj_of(*vn) != obj_of(tr_obj(#[trigger] $c@[k])), $c@ == tvals($3, f, &self.iri),
@attrs #[verifier::loop_isolation(false)]
@endfn
@file shacl/src/ir/components/equals.rs
@type struct Equals
@fn Equals::iri r
    ensures *r == self.iri,
@endfn
pub open spec fn prop_vals(st: Store, p: IriS, f: Term) -> ISet<Term> {
    if t_lit(f) { ISet::empty() } else { ISet::new(|t: Term| exists|k: int| 0 <= k < triples_sp(st, subj_of(f), p).len() && t == tr_obj(#[trigger] triples_sp(st, subj_of(f), p)[k])) }
}
/// the results of sh:equals: every value node that is no value of the property and the other way round
pub open spec fn eq_res(st: Store, p: IriS, vn: Seq<(Term, FocusNodes)>, i: int, comp: Object, sh: IRShape, path: Option<&SHACLPath>, x: ValidationResult) -> bool {
    exists|k: int, t: Term| 0 <= k < i && #[trigger] eq_bad(st, p, vn[k].0, vn[k].1@, t) && x == vresult(vn[k].0, comp, sh, path, Some(obj_of(t)))
}
pub open spec fn eq_bad(st: Store, p: IriS, f: Term, ns: Seq<Term>, t: Term) -> bool { ns.contains(t) != prop_vals(st, p, f).contains(t) }
pub proof fn lemma_push_contains<A>(s: Seq<A>, a: A)
    ensures forall|x: A| #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a
{ assert forall|x: A| #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a by {
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(a)[i] == x); }
    assert(s.push(a)[s.len() as int] == a); } }
pub open spec fn from_seq(c: Seq<Term>, n: int, b: ISet<Term>, f: Term, co: Object, sh: IRShape, path: Option<&SHACLPath>, x: ValidationResult) -> bool {
    exists|j: int| 0 <= j < n && !b.contains(#[trigger] c[j]) && x == vresult(f, co, sh, path, Some(obj_of(c[j])))
}
pub open spec fn from_set(a: ISet<Term>, b: ISet<Term>, f: Term, co: Object, sh: IRShape, path: Option<&SHACLPath>, x: ValidationResult) -> bool {
    exists|t: Term| #[trigger] a.contains(t) && !b.contains(t) && x == vresult(f, co, sh, path, Some(obj_of(t)))
}
pub proof fn lemma_from_step(c: Seq<Term>, n: int, b: ISet<Term>, f: Term, co: Object, sh: IRShape, path: Option<&SHACLPath>)
    requires 0 <= n < c.len()
    ensures forall|x: ValidationResult| #[trigger] from_seq(c, n + 1, b, f, co, sh, path, x) <==> from_seq(c, n, b, f, co, sh, path, x) || (!b.contains(c[n]) && x == vresult(f, co, sh, path, Some(obj_of(c[n]))))
{ }
pub proof fn lemma_from_set(c: Seq<Term>, a: ISet<Term>, b: ISet<Term>, f: Term, co: Object, sh: IRShape, path: Option<&SHACLPath>)
    requires forall|t: Term| c.contains(t) <==> a.contains(t)
    ensures forall|x: ValidationResult| #[trigger] from_seq(c, c.len() as int, b, f, co, sh, path, x) <==> from_set(a, b, f, co, sh, path, x)
{
    assert forall|x: ValidationResult| #[trigger] from_seq(c, c.len() as int, b, f, co, sh, path, x) <==> from_set(a, b, f, co, sh, path, x) by {
        if from_seq(c, c.len() as int, b, f, co, sh, path, x) { let j = choose|j: int| 0 <= j < c.len() && !b.contains(#[trigger] c[j]) && x == vresult(f, co, sh, path, Some(obj_of(c[j]))); assert(c.contains(c[j])); assert(a.contains(c[j])); }
        if from_set(a, b, f, co, sh, path, x) { let t = choose|t: Term| #[trigger] a.contains(t) && !b.contains(t) && x == vresult(f, co, sh, path, Some(obj_of(t))); assert(c.contains(t)); let j = choose|j: int| 0 <= j < c.len() && c[j] == t; assert(!b.contains(c[j])); }
    }
}
pub proof fn lemma_eq_step(st: Store, p: IriS, vn: Seq<(Term, FocusNodes)>, i: int, pv: ISet<Term>, ns: ISet<Term>, comp: Object, sh: IRShape, path: Option<&SHACLPath>)
    requires 0 <= i < vn.len(), pv =~= prop_vals(st, p, vn[i].0), forall|t: Term| ns.contains(t) <==> vn[i].1@.contains(t)
    ensures forall|x: ValidationResult| #[trigger] eq_res(st, p, vn, i + 1, comp, sh, path, x) <==> eq_res(st, p, vn, i, comp, sh, path, x) || from_set(pv, ns, vn[i].0, comp, sh, path, x) || from_set(ns, pv, vn[i].0, comp, sh, path, x)
{
    assert forall|x: ValidationResult| #[trigger] eq_res(st, p, vn, i + 1, comp, sh, path, x) <==> eq_res(st, p, vn, i, comp, sh, path, x) || from_set(pv, ns, vn[i].0, comp, sh, path, x) || from_set(ns, pv, vn[i].0, comp, sh, path, x) by {
        if eq_res(st, p, vn, i + 1, comp, sh, path, x) {
            let (k, t) = choose|k: int, t: Term| 0 <= k < i + 1 && #[trigger] eq_bad(st, p, vn[k].0, vn[k].1@, t) && x == vresult(vn[k].0, comp, sh, path, Some(obj_of(t)));
            if k < i { assert(eq_bad(st, p, vn[k].0, vn[k].1@, t)); }
            else { assert(ns.contains(t) != pv.contains(t)); }
        }
        if eq_res(st, p, vn, i, comp, sh, path, x) {
            let (k, t) = choose|k: int, t: Term| 0 <= k < i && #[trigger] eq_bad(st, p, vn[k].0, vn[k].1@, t) && x == vresult(vn[k].0, comp, sh, path, Some(obj_of(t)));
            assert(eq_bad(st, p, vn[k].0, vn[k].1@, t));
        }
        if from_set(pv, ns, vn[i].0, comp, sh, path, x) {
            let t = choose|t: Term| #[trigger] pv.contains(t) && !ns.contains(t) && x == vresult(vn[i].0, comp, sh, path, Some(obj_of(t)));
            assert(eq_bad(st, p, vn[i].0, vn[i].1@, t));
        }
        if from_set(ns, pv, vn[i].0, comp, sh, path, x) {
            let t = choose|t: Term| #[trigger] ns.contains(t) && !pv.contains(t) && x == vresult(vn[i].0, comp, sh, path, Some(obj_of(t)));
            assert(eq_bad(st, p, vn[i].0, vn[i].1@, t));
        }
    }
}
@file shacl/src/validator/constraints/core/property_pair/equals.rs
@fn Equals@NativeValidator::validate_native r
    ensures r is Ok, forall|x: ValidationResult| #[trigger] r->Ok_0@.contains(x) <==> eq_res(*$3, self.iri, $5@, $5@.len() as int, obj_of_iri(iri_of(*$1)), *$2, $7, x),
@argty 4 &mut EngineX
@rename validate_equals
@start
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant $c@ == $5@, forall|x: ValidationResult| #[trigger] results@.contains(x) <==> eq_res(*$3, self.iri, $c@, $i as int, vx_co, *$2, $7, x),
@loop 1
    invariant forall|t: Term| $acc@.contains(t) <==> exists|k: int| 0 <= k < $i && t == tr_obj(#[trigger] $c@[k]), $c@ == triples_sp(*$3, subj_of(*fnode), self.iri),
@loop 2
    invariant $c@ == nodes@, forall|t: Term| $acc@.contains(t) <==> exists|k: int| 0 <= k < $i && t == #[trigger] $c@[k],
@loopafter 2
    proof { assert forall|t: Term| $acc@.contains(t) <==> nodes@.contains(t) by { if nodes@.contains(t) { let k = choose|k: int| 0 <= k < nodes@.len() && nodes@[k] == t; assert($c@[k] == t); } } }
@loopbefore 3
    assert(prop_values@ =~= prop_vals(*$3, self.iri, *fnode));
@loop 3
    invariant forall|t: Term| $c@.contains(t) <==> prop_values@.contains(t),
        forall|x: ValidationResult| #[trigger] results@.contains(x) <==> eq_res(*$3, self.iri, $c@0@, $i@0 - 1, vx_co, *$2, $7, x) || from_seq($c@, $i as int, nodes_set@, *fnode, vx_co, *$2, $7, x),
@loopstart 3
    let ghost vx_o = results@;
@loopend 3
    proof { lemma_from_step($c@, $i - 1, nodes_set@, *fnode, vx_co, *$2, $7); lemma_push_contains(vx_o, vresult(*fnode, vx_co, *$2, $7, Some(obj_of($c@[$i - 1])))); }
@loopafter 3
    proof { lemma_from_set($c@, prop_values@, nodes_set@, *fnode, vx_co, *$2, $7); }
@loop 4
    invariant $c@ == nodes@,
        forall|x: ValidationResult| #[trigger] results@.contains(x) <==> eq_res(*$3, self.iri, $c@0@, $i@0 - 1, vx_co, *$2, $7, x) || from_set(prop_values@, nodes_set@, *fnode, vx_co, *$2, $7, x) || from_seq($c@, $i as int, prop_values@, *fnode, vx_co, *$2, $7, x),
@loopstart 4
    let ghost vx_o = results@;
@loopend 4
    proof { lemma_from_step($c@, $i - 1, prop_values@, *fnode, vx_co, *$2, $7); lemma_push_contains(vx_o, vresult(*fnode, vx_co, *$2, $7, Some(obj_of($c@[$i - 1])))); }
@loopafter 4
    proof { lemma_from_set($c@, nodes_set@, prop_values@, *fnode, vx_co, *$2, $7); lemma_eq_step(*$3, self.iri, $c@0@, $i@0 - 1, prop_values@, nodes_set@, vx_co, *$2, $7); }
@collect 0 TermSet insert
@collect 1 TermRefSet insert
@attrs #[verifier::loop_isolation(false)]
@endfn
