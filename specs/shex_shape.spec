pub assume_specification<T: PartialEq> [ <[T]>::contains ] (s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> (r <==> exists|i: int| 0 <= i < s@.len() && <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(#[trigger] &s@[i], x));
// ---- shapes: EXTRA, CLOSED, Boolean combinations, references ----
@subst-type R Rdf
@subst-type Expr RbeTable
#[verifier::external_body] pub struct Rdf { x: u64 }
#[verifier::external_body] pub struct SchemaIR { x: u64 }
#[verifier::external_body] pub struct Registry { x: u64 }
#[verifier::external_body] pub struct ValidatorConfig { x: u64 }
#[verifier::external_body] pub struct Resolvers { x: u64 }
pub struct ExternalResolveCtx<'a> { pub node: &'a Node, pub shape_idx: ShapeLabelIdx, pub shape_label: Option<ShapeLabel>, pub schema: &'a SchemaIR }
impl ValidatorConfig { #[verifier::external_body] pub fn external_resolvers(&self) -> Resolvers { unimplemented!() } }
impl Resolvers { #[verifier::external_body] pub fn dispatch<'a>(&self, c: &ExternalResolveCtx<'a>) -> DispatchOutcome { unimplemented!() } }
#[verifier::external_body] pub struct ValidatorErrors { x: u64 }
impl ValidatorErrors { #[verifier::external_body] pub fn new(v: Vec<RbeError>) -> ValidatorErrors { unimplemented!() } }
pub struct Engine { pub config: ValidatorConfig }
@file shex_ast/src/ir/external_resolver.rs
@type enum DispatchOutcome
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct SemAct { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Annotation { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct NodeConstraint { x: u64 }
impl Clone for NodeConstraint { #[verifier::external_body] fn clone(&self) -> (r: NodeConstraint) ensures r == *self { unimplemented!() } }
impl NodeConstraint { pub uninterp spec fn c(&self) -> MatchCond; #[verifier::external_body] pub fn cond(&self) -> (r: MatchCond) ensures r == self.c() { unimplemented!() } }
#[verifier::external_body] pub struct Pairs { x: u64 }
impl View for Pairs { type V = ISet<(Node, ShapeLabelIdx)>; uninterp spec fn view(&self) -> ISet<(Node, ShapeLabelIdx)>; }
impl Pairs {
    #[verifier::external_body] pub fn contains(&self, p: &(Node, ShapeLabelIdx)) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: (Node, ShapeLabelIdx)) -> (r: bool) ensures final(self)@ == old(self)@.insert(p) { unimplemented!() }
}
@subst-type HashSet Pairs
@file shex_validation/src/ref_typing.rs
@type struct RefTyping
impl View for RefTyping { type V = ISet<(Node, ShapeLabelIdx)>; open spec fn view(&self) -> ISet<(Node, ShapeLabelIdx)> { self.passed@ } }
@fn RefTyping::contains r
    ensures r == self@.contains(*$1),
@endfn
@fn RefTyping::insert_passed
    ensures final(self)@ == old(self)@.insert(($1, $2)),
@endfn
impl RefTyping { #[verifier::external_body] pub fn errors_for(&self, p: &(Node, ShapeLabelIdx)) -> Vec<RbeError> { unimplemented!() } }
@file shex_ast/src/ir/shape.rs
@type struct Shape
impl Clone for Shape { #[verifier::external_body] fn clone(&self) -> (r: Shape) ensures r == *self { unimplemented!() } }
@fn Shape::extends r
    ensures *r == self.extends,
@endfn
@fn Shape::extra r
    ensures *r == self.extra,
@endfn
@fn Shape::preds r
    ensures r@ == self.preds@,
@leaf
    proof { assert(vx_leaf@ =~= self.preds@); }
@endfn
@fn Shape::triple_expr r
    ensures *r == self.expr,
@endfn
@fn Shape::is_closed r
    ensures r == self.closed,
@endfn
@file shex_ast/src/ir/shape_expr.rs
@type enum ShapeExpr
impl Clone for ShapeExpr { #[verifier::external_body] fn clone(&self) -> (r: ShapeExpr) ensures r == *self { unimplemented!() } }
// ---- the graph: pairs of a predicate (direct or inverse) and a value of the node ----
pub uninterp spec fn has_arc(g: Rdf, n: Node, p: Pred, v: Node) -> bool;
pub uninterp spec fn direct(p: Pred) -> bool;
/// upper bound on the arcs of the node
pub uninterp spec fn degree(g: Rdf, n: Node) -> nat;
pub open spec fn lists(g: Rdf, n: Node, ps: ISet<Pred>, vs: Seq<(Pred, Node)>) -> bool {
    vs.no_duplicates() && vs.len() <= degree(g, n) && forall|p: Pred, v: Node| #[trigger] vs.contains((p, v)) <==> ps.contains(p) && has_arc(g, n, p, v)
}
/// direct predicates of the node that are not asked for
pub open spec fn remains(g: Rdf, n: Node, ps: ISet<Pred>, q: Pred) -> bool { direct(q) && !ps.contains(q) && exists|v: Node| #[trigger] has_arc(g, n, q, v) }
pub open spec fn pset(ps: Seq<Pred>) -> ISet<Pred> { ISet::new(|p: Pred| ps.contains(p)) }
pub uninterp spec fn ctx_triple(n: Node, p: Pred, v: Node) -> SemanticActionContext;
pub uninterp spec fn ctx_node(n: Node) -> SemanticActionContext;
pub uninterp spec fn ctx_reg(c: SemanticActionContext, r: Registry) -> SemanticActionContext;
pub uninterp spec fn reg_of(s: SchemaIR) -> Registry;
impl SchemaIR {
    #[verifier::external_body] pub fn semantic_actions_registry_arc(&self) -> (r: Registry) ensures r == reg_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn shape_label_from_idx(&self, i: &ShapeLabelIdx) -> Option<ShapeLabel> { unimplemented!() }
}
#[verifier::external_body] pub struct ShapeLabel { x: u64 }
impl SemanticActionContext {
    #[verifier::external_body] pub fn triple(n: &Node, p: &Pred, v: &Node) -> (r: SemanticActionContext) ensures r == ctx_triple(*n, *p, *v) { unimplemented!() }
    #[verifier::external_body] pub fn subject(n: &Node) -> (r: SemanticActionContext) ensures r == ctx_node(*n) { unimplemented!() }
    #[verifier::external_body] pub fn with_registry(self, g: Registry) -> (r: SemanticActionContext) ensures r == ctx_reg(self, g) { unimplemented!() }
}
impl RbeTable {
    #[verifier::external_body] pub fn components(&self) -> (r: Vec<(Key, Pred, MatchCond)>)
        ensures r@.len() == self.component_counter, forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j] == (comp(j as nat), self.component_key@[comp(j as nat)], self.component_cond@[comp(j as nat)]) { unimplemented!() }
}
@iter-result components
@byval-iter components
impl Engine {
    #[verifier::external_body] pub fn neighs(&self, n: &Node, ps: Vec<Pred>, g: &Rdf) -> (r: Result<(Vec<(Pred, Node)>, Vec<Pred>), RbeError>)
        ensures r is Ok ==> lists(*g, *n, pset(ps@), r->Ok_0.0@) && forall|q: Pred| #[trigger] r->Ok_0.1@.contains(q) <==> remains(*g, *n, pset(ps@), q) { unimplemented!() }
    #[verifier::external_body] pub fn check_node_shape_extends(&self, i: &ShapeLabelIdx, n: &Node, s: &Shape, c: &SchemaIR, g: &Rdf, t: &mut RefTyping) -> (r: Result<ValidationResult, RbeError>) ensures final(t)@ == old(t)@ { unimplemented!() }
}
// ---- a shape: some constraint on the predicate takes the value ----
pub open spec fn leaf_at(t: RbeTable, v: Triple, typ: ISet<(Node, ShapeLabelIdx)>, j: nat) -> bool {
    j < t.component_counter && t.component_key@[comp(j)] == v.0 && mc_ok(t.component_cond@[comp(j)], v.1, v.2) && pend(t.component_cond@[comp(j)], v.1).subset_of(typ)
}
pub open spec fn leaf(t: RbeTable, v: Triple, typ: ISet<(Node, ShapeLabelIdx)>) -> bool { exists|j: nat| #[trigger] leaf_at(t, v, typ, j) }
@file shex_validation/src/engine.rs
@fn matches_any_leaf r
    ensures r <==> leaf(*$1, (*$2, *$3, *$4), $5@),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|j: nat| j < $i ==> !#[trigger] leaf_at(*$1, (*$2, *$3, *$4), $5@, j), $c@.len() == $1.component_counter,
        forall|j: int| 0 <= j < $c@.len() ==> #[trigger] $c@[j] == (comp(j as nat), $1.component_key@[comp(j as nat)], $1.component_cond@[comp(j as nat)]),
@loop 1
    invariant $acc <==> forall|i: int| 0 <= i < $i ==> $5@.contains(((#[trigger] $c@[i]).0, $c@[i].1)),
        forall|p: (Node, ShapeLabelIdx)| #[trigger] pending@.contains(p) <==> exists|j: int| 0 <= j < $c@.len() && ((#[trigger] $c@[j]).0, $c@[j].1) == p,
@loopafter 1
    proof {
        assert($acc ==> pending@.subset_of($5@));
        if !$acc { let w = choose|i: int| 0 <= i < $i && !$5@.contains(((#[trigger] $c@[i]).0, $c@[i].1)); assert(pending@.contains(($c@[w].0, $c@[w].1))); }
        assert($acc <==> pending@.subset_of($5@));
        assert($acc ==> leaf_at(*$1, (*$2, *$3, *$4), $5@, ($i@0 - 1) as nat));
    }
@endfn

// ---- a shape: CLOSED, EXTRA ----
pub open spec fn cand(s: Shape) -> ISet<Pred> { ISet::new(|p: Pred| s.preds@.contains(p) || s.extra@.contains(p)) }
pub open spec fn tri(n: Node, g: Registry, v: (Pred, Node)) -> Triple { (v.0, v.1, ctx_reg(ctx_triple(n, v.0, v.1), g)) }
/// a triple of an EXTRA predicate is kept only if some constraint on the predicate takes its value
pub open spec fn keeps(s: Shape, t: Triple, typ: ISet<(Node, ShapeLabelIdx)>) -> bool { s.extra@.contains(t.0) ==> leaf(s.expr, t, typ) }
pub open spec fn kept(s: Shape, n: Node, g: Registry, vs: Seq<(Pred, Node)>, typ: ISet<(Node, ShapeLabelIdx)>, k: nat) -> Seq<Triple> decreases k {
    if k == 0 { seq![] } else { let r = kept(s, n, g, vs, typ, (k - 1) as nat); let t = tri(n, g, vs[k - 1]); if keeps(s, t, typ) { r.push(t) } else { r } }
}
pub open spec fn shape_ok(s: Shape, n: Node, c: SchemaIR, g: Rdf, vs: Seq<(Pred, Node)>, typ: ISet<(Node, ShapeLabelIdx)>) -> bool {
    (s.closed ==> forall|q: Pred| !#[trigger] remains(g, n, cand(s), q)) && sat(s.expr, kept(s, n, reg_of(c), vs, typ, vs.len()), typ)
}
/// the shape is as the compiler leaves it: its predicates are those of its table
pub open spec fn shape_wf(s: Shape) -> bool { t_wf(s.expr) && forall|p: Pred| #[trigger] s.preds@.contains(p) ==> has_key(s.expr, p) }
pub open spec fn has_key(t: RbeTable, p: Pred) -> bool { t.key_components@.dom().contains(p) && ks_items(t.key_components@[p]@).len() > 0 }
pub proof fn lemma_leaf_key(t: RbeTable, v: Triple, typ: ISet<(Node, ShapeLabelIdx)>)
    requires tab_ok(t), leaf(t, v, typ), ensures has_key(t, v.0)
{
    let j = choose|j: nat| #[trigger] leaf_at(t, v, typ, j);
    assert(t.component_key@.dom().contains(comp(j)));
    assert(tab_keys(t, v.0, comp(j)));
    axiom_items(t.key_components@[v.0]@);
}
pub proof fn lemma_kept(s: Shape, n: Node, g: Registry, vs: Seq<(Pred, Node)>, typ: ISet<(Node, ShapeLabelIdx)>, k: nat)
    requires shape_wf(s), k <= vs.len(), forall|i: int| 0 <= i < vs.len() ==> cand(s).contains((#[trigger] vs[i]).0),
    ensures in_keys(s.expr, kept(s, n, g, vs, typ, k)), kept(s, n, g, vs, typ, k).len() <= k, decreases k
{
    if k > 0 {
        lemma_kept(s, n, g, vs, typ, (k - 1) as nat);
        let t = tri(n, g, vs[k - 1]);
        if keeps(s, t, typ) { assert(cand(s).contains(vs[k - 1].0)); if s.extra@.contains(t.0) { lemma_leaf_key(s.expr, t, typ); } assert(has_key(s.expr, t.0)); }
    }
}
pub proof fn lemma_few(t: RbeTable, n: nat, m: nat, b: nat) requires few(t, n, b), m <= n, ensures few(t, m, b) { assert(b * m <= b * n) by(nonlinear_arith) requires m <= n; }
// ---- the order in which the triples are listed does not matter ----
pub proof fn lemma_count1<A>(s: Seq<A>, x: A) requires s.no_duplicates(), ensures s.to_multiset().count(x) == if s.contains(x) { 1nat } else { 0nat }, decreases s.len()
{
    s.to_multiset_ensures();
    if s.len() > 0 {
        let d = s.drop_last(); d.to_multiset_ensures(); lemma_count1(d, x);
        assert(d.push(s.last()) =~= s);
        assert(s.to_multiset() == d.to_multiset().insert(s.last()));
        if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); assert(x != s.last()); }
        if s.contains(x) && x != s.last() { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(d[i] == x); }
    }
}
pub proof fn lemma_same_elems<A>(a: Seq<A>, b: Seq<A>) requires a.no_duplicates(), b.no_duplicates(), forall|x: A| #[trigger] a.contains(x) <==> b.contains(x), ensures a.to_multiset() == b.to_multiset()
{
    assert forall|x: A| a.to_multiset().count(x) == #[trigger] b.to_multiset().count(x) by { lemma_count1(a, x); lemma_count1(b, x); assert(a.contains(x) <==> b.contains(x)); }
    assert(a.to_multiset() =~= b.to_multiset());
}
pub open spec fn aligned(a: Seq<Triple>, c: Seq<Choice>, b: Seq<Triple>, d: Seq<Choice>) -> bool {
    d.len() == b.len() && keys_of(d).to_multiset() == keys_of(c).to_multiset() && forall|i: int| 0 <= i < b.len() ==> exists|j: int| #![trigger c[j]] 0 <= j < a.len() && a[j] == (#[trigger] b[i]) && c[j] == d[i]
}
pub proof fn lemma_align(a: Seq<Triple>, c: Seq<Choice>, b: Seq<Triple>) -> (d: Seq<Choice>)
    requires a.len() == c.len(), a.to_multiset() == b.to_multiset(), ensures aligned(a, c, b, d), decreases b.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if b.len() == 0 { assert(keys_of(c) =~= keys_of(seq![])); seq![] }
    else {
        let x = b.last(); let b2 = b.drop_last(); b2.to_multiset_ensures();
        assert(b2.push(x) =~= b);
        assert(b.contains(x)); assert(b.to_multiset().count(x) > 0); assert(a.contains(x));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == x;
        assert(a.remove(j).to_multiset() =~= b2.to_multiset());
        let d2 = lemma_align(a.remove(j), c.remove(j), b2);
        let d = d2.push(c[j]);
        keys_of(c).to_multiset_ensures(); keys_of(d2).to_multiset_ensures();
        assert(keys_of(c.remove(j)) =~= keys_of(c).remove(j));
        assert(keys_of(d) =~= keys_of(d2).push(c[j].3));
        assert(keys_of(c)[j] == c[j].3);
        assert(keys_of(c).contains(c[j].3));
        assert(keys_of(d).to_multiset() =~= keys_of(c).to_multiset());
        assert forall|i: int| 0 <= i < b.len() implies exists|k: int| #![trigger c[k]] 0 <= k < a.len() && a[k] == (#[trigger] b[i]) && c[k] == d[i] by {
            if i == b.len() - 1 { assert(c[j] == d[i]); }
            else { assert(b2[i] == b[i]); let k = choose|k: int| #![trigger c.remove(j)[k]] 0 <= k < a.remove(j).len() && a.remove(j)[k] == b2[i] && c.remove(j)[k] == d2[i]; let k2 = if k < j { k } else { k + 1 }; assert(a[k2] == a.remove(j)[k]); assert(c[k2] == c.remove(j)[k]); }
        }
        d
    }
}
pub proof fn lemma_sat_perm(t: RbeTable, a: Seq<Triple>, b: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>)
    requires a.to_multiset() == b.to_multiset(), sat(t, a, typ), ensures sat(t, b, typ)
{
    let c = choose|c: Seq<Choice>| good(t, a, typ, c);
    let d = lemma_align(a, c, b);
    assert forall|i: int| 0 <= i < b.len() implies choice_of(t, b[i], #[trigger] d[i]) by { let v = b[i]; let j = choose|j: int| #![trigger c[j]] 0 <= j < a.len() && a[j] == v && c[j] == d[i]; assert(choice_of(t, a[j], c[j])); }
    assert forall|i: int| 0 <= i < d.len() implies c_ok(#[trigger] d[i]) by { let v = b[i]; let j = choose|j: int| #![trigger c[j]] 0 <= j < a.len() && a[j] == v && c[j] == d[i]; assert(c_ok(c[j])); }
    assert forall|p: (Node, ShapeLabelIdx)| pend_of(d).contains(p) implies #[trigger] typ.contains(p) by {
        let i = choose|i: int| 0 <= i < d.len() && pend((#[trigger] d[i]).4, d[i].1).contains(p);
        let v = b[i]; let j = choose|j: int| #![trigger c[j]] 0 <= j < a.len() && a[j] == v && c[j] == d[i];
        assert(pend(c[j].4, c[j].1).contains(p)); assert(pend_of(c).contains(p));
    }
    assert(good(t, b, typ, d));
}
pub open spec fn kept_at(s: Shape, n: Node, g: Registry, vs: Seq<(Pred, Node)>, typ: ISet<(Node, ShapeLabelIdx)>, k: nat, t: Triple, i: int) -> bool { 0 <= i < k && t == tri(n, g, vs[i]) && keeps(s, t, typ) }
pub proof fn lemma_kept_elems(s: Shape, n: Node, g: Registry, vs: Seq<(Pred, Node)>, typ: ISet<(Node, ShapeLabelIdx)>, k: nat)
    requires k <= vs.len(), vs.no_duplicates(),
    ensures kept(s, n, g, vs, typ, k).no_duplicates(), forall|t: Triple| #[trigger] kept(s, n, g, vs, typ, k).contains(t) <==> exists|i: int| #[trigger] kept_at(s, n, g, vs, typ, k, t, i), decreases k
{
    let r = kept(s, n, g, vs, typ, k);
    if k > 0 {
        let q = kept(s, n, g, vs, typ, (k - 1) as nat); lemma_kept_elems(s, n, g, vs, typ, (k - 1) as nat);
        let x = tri(n, g, vs[k - 1]);
        assert(!q.contains(x)) by { if q.contains(x) { let i = choose|i: int| #[trigger] kept_at(s, n, g, vs, typ, (k - 1) as nat, x, i); assert(vs[i] == vs[k - 1]); } }
        assert forall|t: Triple| #[trigger] r.contains(t) <==> exists|i: int| #[trigger] kept_at(s, n, g, vs, typ, k, t, i) by {
            if r.contains(t) {
                let m = choose|m: int| 0 <= m < r.len() && r[m] == t;
                if m < q.len() { assert(q[m] == t); assert(q.contains(t)); let i = choose|i: int| #[trigger] kept_at(s, n, g, vs, typ, (k - 1) as nat, t, i); assert(kept_at(s, n, g, vs, typ, k, t, i)); }
                else { assert(kept_at(s, n, g, vs, typ, k, t, k - 1)); }
            }
            if exists|i: int| #[trigger] kept_at(s, n, g, vs, typ, k, t, i) {
                let i = choose|i: int| #[trigger] kept_at(s, n, g, vs, typ, k, t, i);
                if i < k - 1 { assert(kept_at(s, n, g, vs, typ, (k - 1) as nat, t, i)); assert(q.contains(t)); let m = choose|m: int| 0 <= m < q.len() && q[m] == t; assert(r[m] == t); }
                else { assert(r.last() == t); }
            }
        }
        assert(r.no_duplicates()) by { if keeps(s, x, typ) { assert(r =~= q.push(x)); assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by { if a < q.len() && b < q.len() { assert(q[a] != q[b]); } else if a < q.len() { assert(q.contains(q[a])); } else { assert(q.contains(q[b])); } } } }
    }
}
pub proof fn lemma_listing(s: Shape, n: Node, c: SchemaIR, g: Rdf, a: Seq<(Pred, Node)>, b: Seq<(Pred, Node)>, typ: ISet<(Node, ShapeLabelIdx)>)
    requires lists(g, n, cand(s), a), lists(g, n, cand(s), b), shape_ok(s, n, c, g, a, typ), ensures shape_ok(s, n, c, g, b, typ)
{
    let r = reg_of(c); let ka = kept(s, n, r, a, typ, a.len()); let kb = kept(s, n, r, b, typ, b.len());
    lemma_kept_elems(s, n, r, a, typ, a.len()); lemma_kept_elems(s, n, r, b, typ, b.len());
    assert forall|t: Triple| #[trigger] ka.contains(t) <==> kb.contains(t) by {
        if ka.contains(t) { let i = choose|i: int| #[trigger] kept_at(s, n, r, a, typ, a.len(), t, i); let v = a[i]; assert(a.contains((v.0, v.1))); assert(b.contains((v.0, v.1))); let j = choose|j: int| 0 <= j < b.len() && b[j] == (v.0, v.1); assert(kept_at(s, n, r, b, typ, b.len(), t, j)); }
        if kb.contains(t) { let i = choose|i: int| #[trigger] kept_at(s, n, r, b, typ, b.len(), t, i); let v = b[i]; assert(b.contains((v.0, v.1))); assert(a.contains((v.0, v.1))); let j = choose|j: int| 0 <= j < a.len() && a[j] == (v.0, v.1); assert(kept_at(s, n, r, a, typ, a.len(), t, j)); }
    }
    lemma_same_elems(ka, kb);
    lemma_sat_perm(s.expr, ka, kb, typ);
}
/// the node's neighbourhood satisfies the shape, however it is listed
pub open spec fn shape_sat(s: Shape, n: Node, c: SchemaIR, g: Rdf, typ: ISet<(Node, ShapeLabelIdx)>) -> bool { exists|vs: Seq<(Pred, Node)>| lists(g, n, cand(s), vs) && #[trigger] shape_ok(s, n, c, g, vs, typ) }
@fn Engine::check_node_ref r
@ret Result<ValidationResult, RbeError>
    ensures r is Ok, r->Ok_0 is Right <==> old($3)@.contains((*$1, *$2)), final($3)@ == old($3)@,
@endfn
@fn Engine::check_node_shape r
@ret Result<ValidationResult, RbeError>
    requires shape_wf(*$3), exists|b: nat| #[trigger] few($3.expr, degree(*$5, *$2), b),
    ensures final($6)@ == old($6)@,
        r is Ok ==> (r->Ok_0 is Right <==> shape_sat(*$3, *$2, *$4, *$5, old($6)@)),
@attrs #[verifier::loop_isolation(false)]
@start
    let ghost vx_typ = $6@; let ghost vx_n = *$2;
@loop 0
    invariant forall|p: Pred| #[trigger] candidate_preds@.contains(p) <==> $3.preds@.contains(p) || exists|i: int| 0 <= i < $i && $3.extra@[i] == p,
@loopstart 0
    let ghost vx_cp = candidate_preds@; let ghost vx_i0 = $i as int;
@loopend 0
    proof {
        let x = $3.extra@[vx_i0];
        assert(vx_cp.push(x).last() == x);
        assert forall|p: Pred| #[trigger] candidate_preds@.contains(p) <==> vx_cp.contains(p) || p == x by {
            if vx_cp.contains(p) { let i = choose|i: int| 0 <= i < vx_cp.len() && vx_cp[i] == p; assert(candidate_preds@[i] == p); }
            if candidate_preds@.contains(p) { let i = choose|i: int| 0 <= i < candidate_preds@.len() && candidate_preds@[i] == p; if i < vx_cp.len() { assert(vx_cp[i] == p); } }
            if !vx_cp.contains(x) { assert(candidate_preds@[vx_cp.len() as int] == x); }
        }
        assert($3.extra@.contains(x));
    }
@loopafter 0
    proof { assert(pset(candidate_preds@) =~= cand(*$3)); }
@loop 1
    invariant $acc@ == kept(*$3, vx_n, reg_of(*$4), values@, vx_typ, $i as nat), 
@loopafter 1
    proof {
        assert forall|i: int| 0 <= i < values@.len() implies cand(*$3).contains((#[trigger] values@[i]).0) by { assert(values@.contains((values@[i].0, values@[i].1))); }
        lemma_kept(*$3, vx_n, reg_of(*$4), values@, vx_typ, values@.len());
        let b = choose|b: nat| #[trigger] few($3.expr, degree(*$5, *$2), b);
        lemma_few($3.expr, degree(*$5, *$2), $acc@.len(), b);
    }
@leaf
    proof {
        if reminder@.len() > 0 { assert(reminder@.contains(reminder@[0])); assert(remains(*$5, vx_n, cand(*$3), reminder@[0])); }
        else { assert forall|q: Pred| !#[trigger] remains(*$5, vx_n, cand(*$3), q) by { assert(!reminder@.contains(q)); } }
        assert(lists(*$5, vx_n, cand(*$3), values@));
        assert(vx_leaf->Ok_0 is Right <==> shape_ok(*$3, vx_n, *$4, *$5, values@, vx_typ));
        if shape_sat(*$3, vx_n, *$4, *$5, vx_typ) { let o = choose|o: Seq<(Pred, Node)>| lists(*$5, vx_n, cand(*$3), o) && #[trigger] shape_ok(*$3, vx_n, *$4, *$5, o, vx_typ); lemma_listing(*$3, vx_n, *$4, *$5, o, values@, vx_typ); }
    }
@endfn
// ---- Boolean combinations and references ----
pub open spec fn se_wf(e: ShapeExpr, n: Node, g: Rdf) -> bool {
    match e { ShapeExpr::Shape(s) => s.extends@.len() == 0 ==> shape_wf(*s) && exists|b: nat| #[trigger] few(s.expr, degree(g, n), b), _ => true }
}
/// what a shape expression says of a node, given the typing of the shapes it refers to (shapes that extend others and external ones: no claim)
pub open spec fn se_says(e: ShapeExpr, n: Node, c: SchemaIR, g: Rdf, typ: ISet<(Node, ShapeLabelIdx)>, r: bool) -> bool {
    match e {
        ShapeExpr::ShapeAnd { exprs } => r == (forall|i: int| 0 <= i < exprs@.len() ==> typ.contains((n, #[trigger] exprs@[i]))),
        ShapeExpr::ShapeOr { exprs } => r == (exists|i: int| 0 <= i < exprs@.len() && typ.contains((n, #[trigger] exprs@[i]))),
        ShapeExpr::ShapeNot { expr } => r == !typ.contains((n, expr)),
        ShapeExpr::NodeConstraint(nc) => r == mc_ok(nc.c(), n, ctx_reg(ctx_node(n), reg_of(c))),
        ShapeExpr::Shape(s) => s.extends@.len() == 0 ==> r == shape_sat(*s, n, c, g, typ),
        ShapeExpr::External {} => true,
        ShapeExpr::Ref { idx } => r == typ.contains((n, idx)),
        ShapeExpr::Empty => r,
    }
}
@fn Engine::check_node_shape_expr r
@ret Result<ValidationResult, RbeError>
    requires se_wf(*$3, *$2, *$5),
    ensures final($6)@ == old($6)@, r is Ok ==> se_says(*$3, *$2, *$4, *$5, old($6)@, r->Ok_0 is Right),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant $6@ == old($6)@, forall|i: int| 0 <= i < $i ==> $6@.contains((*$2, #[trigger] exprs@[i])),
@loop 1
    invariant $6@ == old($6)@, forall|i: int| 0 <= i < $i ==> !$6@.contains((*$2, #[trigger] exprs@[i])),
@endfn
