/// a test that never holds gives no results
pub proof fn lemma_genv_none<I: IterationStrategy>(ps: Seq<(Term, I::Item)>, n: int, bad: spec_fn(Term, I::Item) -> bool, comp: Object, sh: IRShape, path: Option<&SHACLPath>)
    requires forall|f: Term, x: I::Item| !#[trigger] bad(f, x),
    ensures genv::<I>(ps, n, bad, comp, sh, path) == Seq::<ValidationResult>::empty(),
    decreases n
{ if n > 0 { lemma_genv_none::<I>(ps, n - 1, bad, comp, sh, path); assert(!bad(ps[n - 1].0, ps[n - 1].1)); } }

@file shacl/src/ir/components/min_count.rs
@type struct MinCount
@fn MinCount::min_count r
    ensures r == self.min_count,
@endfn
@file shacl/src/ir/components/max_count.rs
@type struct MaxCount
@fn MaxCount::max_count r
    ensures r == self.max_count,
@endfn
@file shacl/src/validator/constraints/core/cardinality/min_count.rs
@fn MinCount@Validator::validate r
    ensures r is Ok, r->Ok_0@ == viols::<FocusNodeIteration>($5@, |f: Term, t: FocusNodes| t@.len() < self.min_count, *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_min_count
@start
    proof {
        let bad = |f: Term, t: FocusNodes| t@.len() < self.min_count;
        if self.min_count == 0 {
            lemma_genv_none::<FocusNodeIteration>($5@, $5@.len() as int, bad, obj_of_iri(iri_of(*$1)), *$2, $7);
        }
    }
@closure 0
    -> (r: bool) ensures r == (t@.len() < self.min_count)
@endfn
@file shacl/src/validator/constraints/core/cardinality/max_count.rs
@fn MaxCount@Validator::validate r
    ensures r is Ok, r->Ok_0@ == viols::<FocusNodeIteration>($5@, |f: Term, t: FocusNodes| t@.len() > self.max_count, *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_max_count
@closure 0
    -> (r: bool) ensures r == (t@.len() > self.max_count)
@endfn

// ---- qualified value shapes ----
@subst-type HashSet ResultSet
@remap-path ShaclVocab::sh_qualified_min_count_constraint_component vx_qmin_iri
@remap-path ShaclVocab::sh_qualified_max_count_constraint_component vx_qmax_iri
@iter-via validation_results vx_items
@byval-iter validation_results
pub uninterp spec fn qmin_iri() -> IriS;
pub uninterp spec fn qmax_iri() -> IriS;
#[verifier::external_body] pub fn vx_qmin_iri() -> (r: IriS) ensures r == qmin_iri() { unimplemented!() }
#[verifier::external_body] pub fn vx_qmax_iri() -> (r: IriS) ensures r == qmax_iri() { unimplemented!() }
impl Clone for ValidationResult { #[verifier::external_body] fn clone(&self) -> (r: ValidationResult) ensures r == *self { unimplemented!() } }
/// a set of results (messages erased)
#[verifier::external_body] pub struct ResultSet { x: u64 }
impl View for ResultSet { type V = ISet<ValidationResult>; uninterp spec fn view(&self) -> ISet<ValidationResult>; }
impl ResultSet {
    #[verifier::external_body] pub fn new() -> (r: ResultSet) ensures r@ == ISet::<ValidationResult>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: ValidationResult) -> (r: bool) ensures final(self)@ == old(self)@.insert(v) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<ValidationResult>) ensures forall|x: ValidationResult| r@.contains(x) <==> self@.contains(x) { unimplemented!() }
}
@file shacl/src/ir/components/qualified_value_shape.rs
@type struct QualifiedValueShape
@fn QualifiedValueShape::shape r
    ensures *r == self.shape,
@endfn
@fn QualifiedValueShape::siblings r
    ensures *r == self.siblings,
@endfn
@fn QualifiedValueShape::qualified_min_count r
    ensures r == self.qualified_min_count,
@endfn
@fn QualifiedValueShape::qualified_max_count r
    ensures r == self.qualified_max_count,
@endfn
/// a value node counts when it conforms to the qualified shape and to none of the sibling shapes
pub open spec fn qual(g: IRSchema, q: QualifiedValueShape, n: Term) -> bool { conf(g, q.shape, n) && forall|k: int| 0 <= k < q.siblings@.len() ==> !conf(g, #[trigger] q.siblings@[k], n) }
pub open spec fn n_qual(g: IRSchema, q: QualifiedValueShape, ns: Seq<Term>, j: int) -> int
    decreases j
{ if j <= 0 { 0 } else { n_qual(g, q, ns, j - 1) + if qual(g, q, ns[j - 1]) { 1int } else { 0 } } }
pub open spec fn qres(g: IRSchema, q: QualifiedValueShape, vn: Seq<(Term, FocusNodes)>, i: int, sh: IRShape, path: Option<&SHACLPath>) -> ISet<ValidationResult>
    decreases i
{
    if i <= 0 { ISet::empty() }
    else {
        let e = qres(g, q, vn, i - 1, sh, path);
        let n = n_qual(g, q, vn[i - 1].1@, vn[i - 1].1@.len() as int);
        let e1 = if q.qualified_min_count matches Some(m) && n < m { e.insert(vresult(vn[i - 1].0, obj_of_iri(qmin_iri()), sh, path, None)) } else { e };
        if q.qualified_max_count matches Some(m) && n > m { e1.insert(vresult(vn[i - 1].0, obj_of_iri(qmax_iri()), sh, path, None)) } else { e1 }
    }
}
@file shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
@fn QualifiedValueShape@Validator::validate r
    ensures r matches Ok(v) ==> forall|x: ValidationResult| v@.contains(x) <==> qres(*$8, *self, $5@, $5@.len() as int, *$2, $7).contains(x),
@argty 4 &mut EngineX
@rename validate_qualified
@loop 0
    invariant
        validation_results@ == qres(*$8, *self, $c@, $i as int, *$2, $7), $c@ == $5@, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 1
    invariant
        valid_counter == n_qual(*$8, *self, $c@, $i as int), 0 <= valid_counter <= $i, $c@ == $c@0@[$i@0 - 1].1@, $c@.len() <= isize::MAX,
        1 <= $i@0 <= $c@0@.len(), *fnode == $c@0@[$i@0 - 1].0, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 2
    invariant
        is_valid ==> conf(*$8, self.shape, *node) && forall|k: int| 0 <= k < $i ==> !conf(*$8, #[trigger] self.siblings@[k], *node),
        !is_valid ==> !qual(*$8, *self, *node),
        focus_nodes@ == seq![*node], $i <= $c@.len(), $c@ == self.siblings@,
    decreases $c@.len() - $i
@loop 3
    invariant
        forall|k: int| 0 <= k < $i ==> $acc@[k] == $c@[k], $acc@.len() == $i, $i <= $c@.len(),
    decreases $c@.len() - $i
@attrs #[verifier::loop_isolation(false)]
@endfn
