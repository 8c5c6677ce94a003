// ---- the dependency graph of a schema, and its cycles through negations ----
@subst-type HashMap Shapes
@erase-generics Shapes
@subst-type Expr ShapeBody
@subst-type Cond MatchCond
@erase-generics MatchCond
@remap-method contains has
@remap-path petgraph::algo::tarjan_scc components_of
@erase-path petgraph::Direction::Outgoing Outgoing
@iter-via edges vx_items
@iter-result components cond_references
@byval-iter components cond_references
@iter-via shapes vx_items
@seq-method cond_references
#[derive(PartialEq, Eq, Clone, Copy)] pub struct ShapeLabelIdx { pub id: usize }
#[verifier::external_body] pub struct NodeConstraint { x: u64 }
#[verifier::external_body] pub struct Pred { x: u64 }
#[verifier::external_body] pub struct SingleCond { x: u64 }
#[verifier::external_body] pub struct Component { x: u64 }
pub struct Outgoing;
pub enum MatchCond { Single(SingleCond), And(Vec<MatchCond>), Ref(ShapeLabelIdx) }
#[verifier::external_body] pub struct ShapeBody { x: u64 }
/// the triple constraints of a triple expression: component, predicate and condition
pub uninterp spec fn comps(b: ShapeBody) -> Seq<(Component, Pred, MatchCond)>;
impl ShapeBody {
    #[verifier::external_body] pub fn components(&self) -> (r: Vec<(Component, Pred, MatchCond)>) ensures r@ == comps(*self) { unimplemented!() }
}
/// membership: equality is structural
pub trait Has<T> { spec fn has_spec(&self, x: T) -> bool; fn has(&self, x: &T) -> (r: bool) ensures r == self.has_spec(*x); }
impl<T> Has<T> for Vec<T> {
    open spec fn has_spec(&self, x: T) -> bool { self@.contains(x) }
    #[verifier::external_body] fn has(&self, x: &T) -> (r: bool) { unimplemented!() }
}
@file shex_ast/src/ir/dependency_graph.rs
@type enum PosNeg derive=PartialEq,Eq,Clone,Copy
pub struct DependencyGraph { pub graph: GraphMap }
@file shex_ast/src/ir/shape.rs
@type struct Shape drop=closed,sem_acts,annotations,preds,extends
@file shex_ast/src/ir/shape_expr.rs
@type enum ShapeExpr
@file shex_ast/src/ir/shape_expr_info.rs
@type struct ShapeExprInfo drop=label,source
/// v has exactly the entries of m, each once
pub open spec fn entries(m: Schema, v: Seq<(ShapeLabelIdx, ShapeExprInfo)>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> m.dom().contains((#[trigger] v[k]).0) && m[v[k].0] == v[k].1
    &&& forall|i: ShapeLabelIdx| #[trigger] m.dom().contains(i) ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == i
    &&& forall|j: int, k: int| 0 <= j < v.len() && 0 <= k < v.len() && (#[trigger] v[j]).0 == (#[trigger] v[k]).0 ==> j == k
}
#[verifier::external_body] pub struct Shapes { x: u64 }
impl View for Shapes { type V = IMap<ShapeLabelIdx, ShapeExprInfo>; uninterp spec fn view(&self) -> IMap<ShapeLabelIdx, ShapeExprInfo>; }
impl Shapes {
    #[verifier::external_body] pub fn get(&self, i: &ShapeLabelIdx) -> (r: Option<&ShapeExprInfo>) ensures r is Some <==> self@.dom().contains(*i), r matches Some(x) ==> *x == self@[*i] { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<(ShapeLabelIdx, ShapeExprInfo)>) ensures entries(self@, r@)
    { unimplemented!() }
}
@file shex_ast/src/ir/schema_ir.rs
@type struct SchemaIR drop=labels_idx_map,idx_labels_map,shape_label_counter,sources_map,sources,sources_counter,prefixmap,local_shapes_counter,total_shapes_counter,imported_schemas,inheritance_graph,abstract_shapes,semantic_actions_registry,base,start_acts

// ---- the meaning ----
pub type Schema = IMap<ShapeLabelIdx, ShapeExprInfo>;
/// a shape expression, and whether an odd number of negations leads to it
pub type Nd = (ShapeExpr, PosNeg);
pub open spec fn other(n: PosNeg) -> PosNeg { if n is Pos { PosNeg::Neg } else { PosNeg::Pos } }
/// operands of a shape expression
pub open spec fn kids(e: ShapeExpr) -> Seq<ShapeLabelIdx> {
    match e { ShapeExpr::ShapeOr { exprs } => exprs@, ShapeExpr::ShapeAnd { exprs } => exprs@, ShapeExpr::ShapeNot { expr } => seq![expr], _ => Seq::empty() }
}
pub open spec fn under(e: ShapeExpr, n: PosNeg) -> PosNeg { if e is ShapeNot { other(n) } else { n } }
pub open spec fn kid(m: Schema, x: Nd, i: ShapeLabelIdx, y: Nd) -> bool { kids(x.0).contains(i) && m.dom().contains(i) && y == (m[i].expr, under(x.0, x.1)) }
pub open spec fn child(m: Schema, x: Nd, y: Nd) -> bool { exists|i: ShapeLabelIdx| kid(m, x, i, y) }
/// references of a condition
pub open spec fn crefs(c: MatchCond) -> ISet<ShapeLabelIdx> decreases c {
    match c {
        MatchCond::Single(_) => ISet::empty(),
        MatchCond::Ref(r) => ISet::empty().insert(r),
        MatchCond::And(v) => ISet::new(|t: ShapeLabelIdx| exists|k: int| 0 <= k < v@.len() && crefs(#[trigger] v@[k]).contains(t)),
    }
}
/// triple constraints of a predicate in EXTRA negate: triples that do not conform are allowed
pub open spec fn ref_by(s: Shape, n: PosNeg, c: (Component, Pred, MatchCond), t: ShapeLabelIdx, p: PosNeg) -> bool {
    crefs(c.2).contains(t) && p == if s.extra@.contains(c.1) { PosNeg::Neg } else { n }
}
pub open spec fn in_shape(s: Shape, n: PosNeg, t: ShapeLabelIdx, p: PosNeg) -> bool { exists|k: int| 0 <= k < comps(s.expr).len() && ref_by(s, n, #[trigger] comps(s.expr)[k], t, p) }
/// references of a shape expression itself
pub open spec fn direct(x: Nd, t: ShapeLabelIdx, p: PosNeg) -> bool {
    match x.0 { ShapeExpr::Ref { idx } => t == idx && p == x.1, ShapeExpr::Shape(s) => in_shape(*s, x.1, t, p), _ => false }
}
pub open spec fn closed(m: Schema, z: ISet<Nd>) -> bool { forall|x: Nd, y: Nd| z.contains(x) && #[trigger] child(m, x, y) ==> z.contains(y) }
/// y is x, or below x by operators
pub open spec fn reaches(m: Schema, x: Nd, y: Nd) -> bool { forall|z: ISet<Nd>| #[trigger] closed(m, z) && z.contains(x) ==> z.contains(y) }
pub open spec fn refers(m: Schema, x: Nd, y: Nd, t: ShapeLabelIdx, p: PosNeg) -> bool { reaches(m, x, y) && direct(y, t, p) }
/// shape s mentions shape t, under negation or not
pub open spec fn depends(m: Schema, s: ShapeLabelIdx, t: ShapeLabelIdx, p: PosNeg) -> bool { m.dom().contains(s) && exists|y: Nd| refers(m, (m[s].expr, PosNeg::Pos), y, t, p) }
pub type Edges = IMap<(ShapeLabelIdx, ShapeLabelIdx), PosNeg>;
/// a set of shapes that no edge leaves
pub open spec fn kept(g: Edges, z: ISet<ShapeLabelIdx>) -> bool { forall|u: ShapeLabelIdx, v: ShapeLabelIdx| z.contains(u) && #[trigger] g.dom().contains((u, v)) ==> z.contains(v) }
pub open spec fn leads(g: Edges, u: ShapeLabelIdx, v: ShapeLabelIdx) -> bool { forall|z: ISet<ShapeLabelIdx>| #[trigger] kept(g, z) && z.contains(u) ==> z.contains(v) }
pub open spec fn neg(g: Edges, u: ShapeLabelIdx, v: ShapeLabelIdx) -> bool { g.dom().contains((u, v)) && g[(u, v)] is Neg }
/// some shape depends negatively on a shape that leads back to it
pub open spec fn cyclic(g: Edges) -> bool { exists|u: ShapeLabelIdx, v: ShapeLabelIdx| #[trigger] neg(g, u, v) && leads(g, v, u) }
/// the graph of a schema: an edge for every dependency, negative if any is
pub open spec fn graph_of(m: Schema, g: Edges) -> bool {
    &&& forall|s: ShapeLabelIdx, t: ShapeLabelIdx| #[trigger] g.dom().contains((s, t)) <==> depends(m, s, t, PosNeg::Pos) || depends(m, s, t, PosNeg::Neg)
    &&& forall|s: ShapeLabelIdx, t: ShapeLabelIdx| #[trigger] neg(g, s, t) <==> depends(m, s, t, PosNeg::Neg)
}
pub open spec fn le(g: Edges, h: Edges) -> bool { forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] g.dom().contains(k) ==> h.dom().contains(k) && (g[k] is Neg ==> h[k] is Neg) }
pub open spec fn has_edge(g: Edges, s: ShapeLabelIdx, t: ShapeLabelIdx, p: PosNeg) -> bool { g.dom().contains((s, t)) && (p is Neg ==> g[(s, t)] is Neg) }
pub open spec fn covers(g: Edges, s: ShapeLabelIdx, x: Nd) -> bool { forall|t: ShapeLabelIdx, p: PosNeg| #[trigger] direct(x, t, p) ==> has_edge(g, s, t, p) }
pub open spec fn expanded(m: Schema, v: ISet<Nd>, x: Nd) -> bool { forall|y: Nd| #[trigger] child(m, x, y) ==> v.contains(y) }
/// edges are as before, or come from below x
pub open spec fn only(m: Schema, g: Edges, h: Edges, s: ShapeLabelIdx, x: Nd) -> bool {
    forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] h.dom().contains(k) ==> (g.dom().contains(k) && h[k] == g[k]) || (k.0 == s && exists|y: Nd| refers(m, x, y, k.1, h[k]))
}
pub open spec fn vis(v: Seq<(&ShapeExpr, PosNeg)>) -> ISet<Nd> { ISet::new(|x: Nd| v.contains((&x.0, x.1))) }
/// what a visit of x does
pub open spec fn visit(m: Schema, v: ISet<Nd>, w: ISet<Nd>, g: Edges, h: Edges, s: ShapeLabelIdx, x: Nd) -> bool {
    &&& v.subset_of(w)
    &&& le(g, h)
    &&& only(m, g, h, s, x)
    &&& forall|y: Nd| #[trigger] w.contains(y) && !v.contains(y) ==> reaches(m, x, y) && covers(h, s, y) && expanded(m, w, y)
}

// petgraph
#[verifier::external_body] pub struct GraphMap { x: u64 }
@erase-generics GraphMap
impl View for GraphMap { type V = Edges; uninterp spec fn view(&self) -> Edges; }
#[verifier::external_body] pub struct EdgeItem { x: u64 }
impl EdgeItem {
    pub uninterp spec fn to(&self) -> ShapeLabelIdx;
    pub uninterp spec fn p(&self) -> PosNeg;
    #[verifier::external_body] pub fn target(&self) -> (r: ShapeLabelIdx) ensures r == self.to() { unimplemented!() }
    #[verifier::external_body] pub fn weight(&self) -> (r: &PosNeg) ensures *r == self.p() { unimplemented!() }
}
#[verifier::external_body] pub struct EdgesOf { x: u64 }
impl View for EdgesOf { type V = Seq<EdgeItem>; uninterp spec fn view(&self) -> Seq<EdgeItem>; }
impl EdgesOf { #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<EdgeItem>) ensures r@ == self@ { unimplemented!() } }
pub open spec fn edge_list(g: Edges, u: ShapeLabelIdx, r: Seq<EdgeItem>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> g.dom().contains((u, (#[trigger] r[k]).to())) && g[(u, r[k].to())] == r[k].p()
    &&& forall|v: ShapeLabelIdx| #[trigger] g.dom().contains((u, v)) ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).to() == v
}
impl GraphMap {
    #[verifier::external_body] pub fn edge_weight(&self, a: ShapeLabelIdx, b: ShapeLabelIdx) -> (r: Option<&PosNeg>) ensures r is Some <==> self@.dom().contains((a, b)), r matches Some(x) ==> *x == self@[(a, b)] { unimplemented!() }
    #[verifier::external_body] pub fn add_edge(&mut self, a: ShapeLabelIdx, b: ShapeLabelIdx, p: PosNeg) -> (r: Option<PosNeg>) ensures final(self)@ == old(self)@.insert((a, b), p) { unimplemented!() }
    #[verifier::external_body] pub fn edges_directed(&self, u: ShapeLabelIdx, d: Outgoing) -> (r: EdgesOf) ensures edge_list(self@, u, r@) { unimplemented!() }
}
/// strongly connected components (Tarjan): two shapes are in one exactly when each leads to the other
pub open spec fn sccs(g: Edges, r: Seq<Vec<ShapeLabelIdx>>) -> bool {
    &&& forall|c: int, i: int, j: int| 0 <= c < r.len() && 0 <= i < r[c]@.len() && 0 <= j < r[c]@.len() ==> leads(g, #[trigger] r[c]@[i], #[trigger] r[c]@[j])
    &&& forall|u: ShapeLabelIdx, v: ShapeLabelIdx| #[trigger] g.dom().contains((u, v)) && leads(g, v, u) ==> exists|c: int| 0 <= c < r.len() && (#[trigger] r[c])@.contains(u) && r[c]@.contains(v)
}
#[verifier::external_body] pub fn components_of(g: &GraphMap) -> (r: Vec<Vec<ShapeLabelIdx>>) ensures sccs(g@, r@) { unimplemented!() }
impl View for DependencyGraph { type V = Edges; open spec fn view(&self) -> Edges { self.graph@ } }
impl DependencyGraph {
    #[verifier::external_body] pub fn new() -> (r: DependencyGraph) ensures r@ == Edges::empty() { unimplemented!() }
}

@file shex_ast/src/ir/dependency_graph.rs
@fn PosNeg::is_neg r
    ensures r == (*self is Neg),
@endfn
@fn PosNeg::pos r
    ensures r is Pos,
@endfn
@fn PosNeg::change r
    ensures r == other(*self),
@endfn
@fn DependencyGraph::add_edge
    ensures
        final(self)@ == old(self)@.insert(($1, $2), if neg(old(self)@, $1, $2) { PosNeg::Neg } else { $3 }),
@endfn
/// a shape of the component depends negatively on u's component
pub open spec fn has_neg(g: Edges, c: Seq<ShapeLabelIdx>, u: ShapeLabelIdx) -> bool { exists|v: ShapeLabelIdx| #[trigger] neg(g, u, v) && c.contains(v) }
pub open spec fn quiet(g: Edges, c: Seq<ShapeLabelIdx>, n: int) -> bool { forall|j: int| 0 <= j < n ==> !has_neg(g, c, #[trigger] c[j]) }
pub open spec fn no_edge(c: Seq<ShapeLabelIdx>, r: Seq<EdgeItem>, n: int) -> bool { forall|j: int| 0 <= j < n && (#[trigger] r[j]).p() is Neg ==> !c.contains(r[j].to()) }
pub proof fn lemma_no_edge(g: Edges, c: Seq<ShapeLabelIdx>, u: ShapeLabelIdx, r: Seq<EdgeItem>) requires edge_list(g, u, r), no_edge(c, r, r.len() as int) ensures !has_neg(g, c, u)
{
    if has_neg(g, c, u) { let v = choose|v: ShapeLabelIdx| #[trigger] neg(g, u, v) && c.contains(v); assert(g.dom().contains((u, v))); let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).to() == v; assert(g[(u, r[k].to())] == r[k].p()); }
}
pub proof fn lemma_found(g: Edges, rs: Seq<Vec<ShapeLabelIdx>>, c: int, i: int, v: ShapeLabelIdx) requires sccs(g, rs), 0 <= c < rs.len(), 0 <= i < rs[c]@.len(), rs[c]@.contains(v), neg(g, rs[c]@[i], v) ensures cyclic(g)
{
    let j = choose|j: int| 0 <= j < rs[c]@.len() && rs[c]@[j] == v;
    assert(leads(g, rs[c]@[j], rs[c]@[i]));
}
pub proof fn lemma_quiet(g: Edges, rs: Seq<Vec<ShapeLabelIdx>>) requires sccs(g, rs), forall|c: int| 0 <= c < rs.len() ==> quiet(g, (#[trigger] rs[c])@, rs[c]@.len() as int) ensures !cyclic(g)
{
    if cyclic(g) {
        let (u, v) = choose|u: ShapeLabelIdx, v: ShapeLabelIdx| #[trigger] neg(g, u, v) && leads(g, v, u);
        assert(g.dom().contains((u, v)));
        let c = choose|c: int| 0 <= c < rs.len() && (#[trigger] rs[c])@.contains(u) && rs[c]@.contains(v);
        let i = choose|i: int| 0 <= i < rs[c]@.len() && rs[c]@[i] == u;
        assert(quiet(g, rs[c]@, rs[c]@.len() as int)); assert(has_neg(g, rs[c]@, rs[c]@[i]));
    }
}
@fn DependencyGraph::neg_cycles r
@attrs #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    ensures (r@.len() > 0) == cyclic(self@),
@loop 0
    sccs(self@, scc@),
    result@.len() > 0 ==> cyclic(self@),
    result@.len() == 0 ==> forall|c: int| 0 <= c < $i ==> quiet(self@, (#[trigger] scc@[c])@, scc@[c]@.len() as int),
@loop 1
    neg_cycle@.len() > 0 ==> cyclic(self@),
    neg_cycle@.len() == 0 ==> quiet(self@, component@, $i as int),
@loop 2
    neg_cycle@.len() > 0 ==> cyclic(self@),
    neg_cycle@.len() == 0 ==> no_edge(component@, $c@, $i as int) && quiet(self@, component@, $i@1 - 1),
    ensures neg_cycle@.len() > 0 ==> cyclic(self@), neg_cycle@.len() == 0 ==> no_edge(component@, $c@, $c@.len() as int) && quiet(self@, component@, $i@1 - 1),
@afterlet shapes
    proof { lemma_found(self@, scc@, $i@0 - 1, $i@1 - 1, edge.to()); }
@loopafter 2
    proof { if neg_cycle@.len() == 0 { lemma_no_edge(self@, component@, *node, $c@2@); } }
@loopafter 0
    proof { if result@.len() == 0 { lemma_quiet(self@, scc@); } }
@endfn
@fn DependencyGraph::has_neg_cycle r
    ensures r == cyclic(self@),
@endfn
pub open spec fn some_refs(v: Seq<MatchCond>, n: int, t: ShapeLabelIdx) -> bool { exists|k: int| 0 <= k < n && crefs(#[trigger] v[k]).contains(t) }
pub proof fn lemma_refs(a: Seq<ShapeLabelIdx>, c: Seq<ShapeLabelIdx>, v: Seq<MatchCond>, n: int)
    requires 0 <= n < v.len(), forall|t: ShapeLabelIdx| #[trigger] a.contains(t) <==> some_refs(v, n, t), forall|t: ShapeLabelIdx| #[trigger] c.contains(t) <==> crefs(v[n]).contains(t)
    ensures forall|t: ShapeLabelIdx| #[trigger] (a + c).contains(t) <==> some_refs(v, n + 1, t)
{
    assert forall|t: ShapeLabelIdx| #[trigger] (a + c).contains(t) <==> some_refs(v, n + 1, t) by {
        if (a + c).contains(t) { let k = choose|k: int| 0 <= k < (a + c).len() && (a + c)[k] == t; if k < a.len() { assert(a[k] == t); assert(a.contains(t)); } else { assert(c[k - a.len()] == t); assert(c.contains(t)); } }
        if some_refs(v, n + 1, t) {
            let k = choose|k: int| 0 <= k < n + 1 && crefs(#[trigger] v[k]).contains(t);
            if k < n { assert(some_refs(v, n, t)); assert(a.contains(t)); let j = choose|j: int| 0 <= j < a.len() && a[j] == t; assert((a + c)[j] == t); }
            else { assert(c.contains(t)); let j = choose|j: int| 0 <= j < c.len() && c[j] == t; assert((a + c)[a.len() + j] == t); }
        }
    }
}
pub open spec fn some_tc(s: Shape, n: PosNeg, m: int, t: ShapeLabelIdx, p: PosNeg) -> bool { exists|k: int| 0 <= k < m && ref_by(s, n, #[trigger] comps(s.expr)[k], t, p) }
pub open spec fn tc_edges(s: Shape, n: PosNeg, m: int, g: Edges, i: ShapeLabelIdx) -> bool { forall|t: ShapeLabelIdx, p: PosNeg| #[trigger] some_tc(s, n, m, t, p) ==> has_edge(g, i, t, p) }
pub open spec fn only_tc(s: Shape, n: PosNeg, m: int, g: Edges, h: Edges, i: ShapeLabelIdx) -> bool {
    forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] h.dom().contains(k) ==> (g.dom().contains(k) && h[k] == g[k]) || (k.0 == i && some_tc(s, n, m, k.1, h[k]))
}
pub open spec fn shape_edges(s: Shape, n: PosNeg, g: Edges, h: Edges, i: ShapeLabelIdx) -> bool { le(g, h) && tc_edges(s, n, comps(s.expr).len() as int, h, i) && only_tc(s, n, comps(s.expr).len() as int, g, h, i) }
pub open spec fn pol(s: Shape, n: PosNeg, c: (Component, Pred, MatchCond)) -> PosNeg { if s.extra@.contains(c.1) { PosNeg::Neg } else { n } }
pub open spec fn edges_to(g: Edges, i: ShapeLabelIdx, r: Seq<ShapeLabelIdx>, n: int, p: PosNeg) -> bool { forall|k: int| 0 <= k < n ==> has_edge(g, i, #[trigger] r[k], p) }
/// one triple constraint done
pub proof fn lemma_tc(s: Shape, n: PosNeg, m: int, g: Edges, i: ShapeLabelIdx, r: Seq<ShapeLabelIdx>)
    requires 0 <= m < comps(s.expr).len(), tc_edges(s, n, m, g, i), edges_to(g, i, r, r.len() as int, pol(s, n, comps(s.expr)[m])), forall|t: ShapeLabelIdx| #[trigger] r.contains(t) <==> crefs(comps(s.expr)[m].2).contains(t)
    ensures tc_edges(s, n, m + 1, g, i)
{
    assert forall|t: ShapeLabelIdx, p: PosNeg| #[trigger] some_tc(s, n, m + 1, t, p) implies has_edge(g, i, t, p) by {
        let k = choose|k: int| 0 <= k < m + 1 && ref_by(s, n, #[trigger] comps(s.expr)[k], t, p);
        if k < m { assert(some_tc(s, n, m, t, p)); } else { assert(r.contains(t)); let j = choose|j: int| 0 <= j < r.len() && r[j] == t; assert(has_edge(g, i, r[j], p)); }
    }
}
/// one more edge of the triple constraint m
pub proof fn lemma_edge(s: Shape, n: PosNeg, m: int, g0: Edges, g: Edges, h: Edges, i: ShapeLabelIdx, t: ShapeLabelIdx)
    requires 0 <= m < comps(s.expr).len(), crefs(comps(s.expr)[m].2).contains(t), le(g0, g), tc_edges(s, n, m, g, i), only_tc(s, n, m + 1, g0, g, i),
        h == g.insert((i, t), if neg(g, i, t) { PosNeg::Neg } else { pol(s, n, comps(s.expr)[m]) }),
    ensures le(g0, h), le(g, h), tc_edges(s, n, m, h, i), only_tc(s, n, m + 1, g0, h, i), has_edge(h, i, t, pol(s, n, comps(s.expr)[m])),
{
    let q = pol(s, n, comps(s.expr)[m]);
    assert(ref_by(s, n, comps(s.expr)[m], t, q)); assert(some_tc(s, n, m + 1, t, q));
    assert(le(g, h));
    assert forall|u: ShapeLabelIdx, p: PosNeg| #[trigger] some_tc(s, n, m, u, p) implies has_edge(h, i, u, p) by { assert(has_edge(g, i, u, p)); }
    assert forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] h.dom().contains(k) implies (g0.dom().contains(k) && h[k] == g0[k]) || (k.0 == i && some_tc(s, n, m + 1, k.1, h[k])) by { if k != (i, t) { assert(g.dom().contains(k)); } }
}
@file shex_ast/src/ir/shape.rs
@fn cond_references r
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
    ensures forall|t: ShapeLabelIdx| #[trigger] r@.contains(t) <==> crefs(*$1).contains(t),
@start
    proof { assert forall|r: ShapeLabelIdx, t: ShapeLabelIdx| #[trigger] Seq::<ShapeLabelIdx>::empty().push(r).contains(t) <==> t == r by { assert(Seq::<ShapeLabelIdx>::empty().push(r)[0] == r); } }
@loop 0
    forall|t: ShapeLabelIdx| #[trigger] $acc@.contains(t) <==> some_refs(match_conds@, $i as int, t),
@loopbefore 1
    let ghost base = $acc@0@;
@loop 1
    $acc@0@ =~= base + $c@.take($i as int),
@loopafter 1
    proof { lemma_refs(base, $c@1@, match_conds@, $i@0 - 1); assert($c@1@.take($c@1@.len() as int) =~= $c@1@); }
@loopafter 0
    proof { assert forall|t: ShapeLabelIdx| #[trigger] $acc@0@.contains(t) <==> crefs(*$1).contains(t) by { assert(some_refs(match_conds@, match_conds@.len() as int, t) <==> crefs(*$1).contains(t)); } }
@endfn
@fn Shape::add_edges
@attrs #[verifier::loop_isolation(false)]
    ensures shape_edges(*self, $3, old($2)@, final($2)@, $1),
@loop 0
    $c@ == comps(self.expr),
    le(old(graph)@, graph@), tc_edges(*self, pn0, $i as int, graph@, source), only_tc(*self, pn0, $i as int, old(graph)@, graph@, source),
@start
    let ghost pn0 = pos_neg;
@afterlet pos_neg
    proof { assert(only_tc(*self, pn0, $i@0 as int, old(graph)@, graph@, source)) by {
        assert forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] graph@.dom().contains(k) implies (old(graph)@.dom().contains(k) && graph@[k] == old(graph)@[k]) || (k.0 == source && some_tc(*self, pn0, $i@0 as int, k.1, graph@[k])) by {
            if !(old(graph)@.dom().contains(k) && graph@[k] == old(graph)@[k]) { let j = choose|j: int| 0 <= j < $i@0 - 1 && ref_by(*self, pn0, #[trigger] comps(self.expr)[j], k.1, graph@[k]); assert(ref_by(*self, pn0, comps(self.expr)[j], k.1, graph@[k])); }
        }
    } }
@loop 1
    pos_neg == pol(*self, pn0, comps(self.expr)[$i@0 - 1]),
    le(old(graph)@, graph@), tc_edges(*self, pn0, $i@0 - 1, graph@, source), only_tc(*self, pn0, $i@0 as int, old(graph)@, graph@, source),
    edges_to(graph@, source, $c@, $i as int, pos_neg),
@loopstart 1
    let ghost g1 = graph@;
@loopend 1
    proof { assert($c@.contains(r)); lemma_edge(*self, pn0, $i@0 - 1, old(graph)@, g1, graph@, source, r); 
        assert forall|k: int| 0 <= k < $i implies has_edge(graph@, source, #[trigger] $c@[k], pos_neg) by { if k < $i - 1 { assert(has_edge(g1, source, $c@[k], pos_neg)); } } }
@loopafter 1
    proof { lemma_tc(*self, pn0, $i@0 - 1, graph@, source, $c@1@); }
@endfn
@file shex_ast/src/ir/shape_expr_info.rs
@fn ShapeExprInfo::expr r
    ensures *r == self.expr,
@endfn
@file shex_ast/src/ir/schema_ir.rs
@fn SchemaIR::find_shape_idx r
    ensures r is Some <==> self.shapes@.dom().contains(*$1), r matches Some(x) ==> *x == self.shapes@[*$1],
@endfn
pub proof fn lemma_reach(m: Schema, x: Nd, y: Nd, z: Nd) requires child(m, x, y), reaches(m, y, z) ensures reaches(m, x, z)
{
    assert forall|s: ISet<Nd>| #[trigger] closed(m, s) && s.contains(x) implies s.contains(z) by { assert(s.contains(y)); }
}
pub proof fn lemma_push(v: Seq<(&ShapeExpr, PosNeg)>, e: &ShapeExpr, p: PosNeg) ensures vis(v.push((e, p))) =~= vis(v).insert((*e, p))
{
    broadcast use vstd::seq_lib::group_seq_properties;
    assert forall|x: Nd| vis(v.push((e, p))).contains(x) <==> vis(v).insert((*e, p)).contains(x) by {
        let q = (&x.0, x.1);
        if v.contains(q) { let k = choose|k: int| 0 <= k < v.len() && v[k] == q; assert(v.push((e, p))[k] == q); }
        if q == (e, p) { assert(v.push((e, p))[v.len() as int] == q); }
        if v.push((e, p)).contains(q) { let k = choose|k: int| 0 <= k < v.push((e, p)).len() && v.push((e, p))[k] == q; if k < v.len() { assert(v[k] == q); } }
    }
}
pub proof fn lemma_kid(m: Schema, a: ISet<Nd>, v: ISet<Nd>, w: ISet<Nd>, g0: Edges, g: Edges, h: Edges, s: ShapeLabelIdx, x: Nd, y: Nd)
    requires visit(m, a, v, g0, g, s, x), child(m, x, y), visit(m, v.insert(y), w, g, h, s, y), covers(h, s, y), expanded(m, w, y),
    ensures visit(m, a, w, g0, h, s, x), w.contains(y), v.subset_of(w),
{
    assert(v.insert(y).contains(y));
    assert(v.subset_of(w)) by { assert forall|q: Nd| v.contains(q) implies w.contains(q) by { assert(v.insert(y).contains(q)); } }
    assert(reaches(m, y, y));
    assert forall|q: Nd| #[trigger] w.contains(q) && !a.contains(q) implies reaches(m, x, q) && covers(h, s, q) && expanded(m, w, q) by {
        if q == y { lemma_reach(m, x, y, y); }
        else if v.contains(q) { assert(covers(g, s, q)); assert(expanded(m, v, q)); lemma_covers(g, h, s, q); }
        else { assert(!v.insert(y).contains(q)); lemma_reach(m, x, y, q); }
    }
    assert forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] h.dom().contains(k) implies (g0.dom().contains(k) && h[k] == g0[k]) || (k.0 == s && exists|z: Nd| refers(m, x, z, k.1, h[k])) by {
        if g.dom().contains(k) && h[k] == g[k] {
            if !(g0.dom().contains(k) && h[k] == g0[k]) { let z = choose|z: Nd| refers(m, x, z, k.1, g[k]); assert(refers(m, x, z, k.1, h[k])); }
        } else { let z = choose|z: Nd| refers(m, y, z, k.1, h[k]); lemma_reach(m, x, y, z); assert(refers(m, x, z, k.1, h[k])); }
    }
}
pub proof fn lemma_covers(g: Edges, h: Edges, s: ShapeLabelIdx, x: Nd) requires covers(g, s, x), le(g, h) ensures covers(h, s, x)
{
    assert forall|t: ShapeLabelIdx, p: PosNeg| #[trigger] direct(x, t, p) implies has_edge(h, s, t, p) by { assert(has_edge(g, s, t, p)); }
}
pub open spec fn first(m: Schema, v: ISet<Nd>, x: Nd, n: int) -> bool { forall|j: int| 0 <= j < n && m.dom().contains(#[trigger] kids(x.0)[j]) ==> v.contains((m[kids(x.0)[j]].expr, under(x.0, x.1))) }
pub proof fn lemma_first(m: Schema, v: ISet<Nd>, x: Nd) requires first(m, v, x, kids(x.0).len() as int) ensures expanded(m, v, x)
{
    assert forall|y: Nd| #[trigger] child(m, x, y) implies v.contains(y) by { let i = choose|i: ShapeLabelIdx| kid(m, x, i, y); let j = choose|j: int| 0 <= j < kids(x.0).len() && kids(x.0)[j] == i; assert(m.dom().contains(kids(x.0)[j])); }
}
pub proof fn lemma_pushes(v: Seq<(&ShapeExpr, PosNeg)>) ensures forall|e: &ShapeExpr, p: PosNeg| vis(#[trigger] v.push((e, p))) == vis(v).insert((*e, p))
{
    assert forall|e: &ShapeExpr, p: PosNeg| vis(#[trigger] v.push((e, p))) == vis(v).insert((*e, p)) by { lemma_push(v, e, p); }
}
/// visiting an operand y of x
pub proof fn lemma_kids(m: Schema, a: ISet<Nd>, v: ISet<Nd>, g0: Edges, g: Edges, s: ShapeLabelIdx, x: Nd, y: Nd)
    requires visit(m, a, v, g0, g, s, x), child(m, x, y),
    ensures forall|w: ISet<Nd>, h: Edges| #[trigger] visit(m, v.insert(y), w, g, h, s, y) && covers(h, s, y) && expanded(m, w, y) ==> visit(m, a, w, g0, h, s, x) && w.contains(y) && v.subset_of(w)
{
    assert forall|w: ISet<Nd>, h: Edges| #[trigger] visit(m, v.insert(y), w, g, h, s, y) && covers(h, s, y) && expanded(m, w, y) implies visit(m, a, w, g0, h, s, x) && w.contains(y) && v.subset_of(w) by { lemma_kid(m, a, v, w, g0, g, h, s, x, y); }
}
pub open spec fn y_of(m: Schema, x: Nd, j: int) -> Nd { (m[kids(x.0)[j]].expr, under(x.0, x.1)) }
pub proof fn lemma_child(m: Schema, x: Nd, j: int) requires 0 <= j < kids(x.0).len(), m.dom().contains(kids(x.0)[j]) ensures child(m, x, y_of(m, x, j))
{ assert(kid(m, x, kids(x.0)[j], y_of(m, x, j))); }
pub proof fn lemma_start(m: Schema, v: ISet<Nd>, g: Edges, s: ShapeLabelIdx, x: Nd)
    ensures visit(m, v, v, g, g, s, x),
        x.0 is ShapeNot ==> (forall|w: ISet<Nd>| (m.dom().contains(kids(x.0)[0]) ==> w.contains(y_of(m, x, 0))) ==> #[trigger] expanded(m, w, x)),
        x.0 is ShapeNot && m.dom().contains(kids(x.0)[0]) ==> child(m, x, y_of(m, x, 0)),
        !(x.0 is ShapeNot || x.0 is ShapeAnd || x.0 is ShapeOr) ==> (forall|w: ISet<Nd>| #[trigger] expanded(m, w, x)),
        !(x.0 is Shape || x.0 is Ref) ==> (forall|h: Edges| #[trigger] covers(h, s, x)),
        x.0 matches ShapeExpr::Ref { idx } ==> (covers(g.insert((s, idx), if neg(g, s, idx) { PosNeg::Neg } else { x.1 }), s, x) && visit(m, v, v, g, g.insert((s, idx), if neg(g, s, idx) { PosNeg::Neg } else { x.1 }), s, x)),
        x.0 matches ShapeExpr::Shape(sh) ==> (forall|h: Edges| #[trigger] shape_edges(*sh, x.1, g, h, s) ==> covers(h, s, x) && visit(m, v, v, g, h, s, x)),
{
    assert forall|w: ISet<Nd>| x.0 is ShapeNot && (m.dom().contains(kids(x.0)[0]) ==> w.contains(y_of(m, x, 0))) implies #[trigger] expanded(m, w, x) by { lemma_first(m, w, x); }
    if x.0 is ShapeNot && m.dom().contains(kids(x.0)[0]) { lemma_child(m, x, 0); }
    assert(reaches(m, x, x));
    if let ShapeExpr::Ref { idx } = x.0 {
        let h = g.insert((s, idx), if neg(g, s, idx) { PosNeg::Neg } else { x.1 });
        assert(covers(h, s, x) && visit(m, v, v, g, h, s, x)) by {
            assert forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] h.dom().contains(k) implies (g.dom().contains(k) && h[k] == g[k]) || (k.0 == s && exists|z: Nd| refers(m, x, z, k.1, h[k])) by {
                if k == (s, idx) && !neg(g, s, idx) { assert(refers(m, x, x, k.1, h[k])); }
            }
        }
    }
    if let ShapeExpr::Shape(sh) = x.0 {
        assert forall|h: Edges| #[trigger] shape_edges(*sh, x.1, g, h, s) implies covers(h, s, x) && visit(m, v, v, g, h, s, x) by {
            assert forall|t: ShapeLabelIdx, p: PosNeg| #[trigger] direct(x, t, p) implies has_edge(h, s, t, p) by { assert(some_tc(*sh, x.1, comps(sh.expr).len() as int, t, p)); }
            assert forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] h.dom().contains(k) implies (g.dom().contains(k) && h[k] == g[k]) || (k.0 == s && exists|z: Nd| refers(m, x, z, k.1, h[k])) by {
                if !(g.dom().contains(k) && h[k] == g[k]) { assert(some_tc(*sh, x.1, comps(sh.expr).len() as int, k.1, h[k])); assert(direct(x, k.1, h[k])); assert(refers(m, x, x, k.1, h[k])); }
            }
        }
    }
}
@file shex_ast/src/ir/shape_expr.rs
@fn ShapeExpr::add_edges
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@generics <'a>
@argty 4 &'a SchemaIR
@argty 5 &mut Vec<(&'a ShapeExpr, PosNeg)>
    ensures
        visit($4.shapes@, vis(old($5)@), vis(final($5)@), old($2)@, final($2)@, $1, (*self, $3)),
        covers(final($2)@, $1, (*self, $3)),
        expanded($4.shapes@, vis(final($5)@), (*self, $3)),
@start
    let ghost m = $4.shapes@; let ghost x: Nd = (*self, $3); let ghost v0 = vis($5@); let ghost g0 = $2@;
    proof { lemma_start(m, v0, g0, $1, x); lemma_pushes($5@);
        if x.0 is ShapeNot && m.dom().contains(kids(x.0)[0]) { lemma_kids(m, v0, v0, g0, g0, $1, x, y_of(m, x, 0)); } }
@loop 0
    visit(m, v0, vis($5@), g0, $2@, $1, x), first(m, vis($5@), x, $i as int),
@loopstart 0
    let ghost vi = vis($5@);
    proof { lemma_pushes($5@); if m.dom().contains(kids(x.0)[$i as int]) { lemma_child(m, x, $i as int); lemma_kids(m, v0, vi, g0, $2@, $1, x, y_of(m, x, $i as int)); } }
@loopafter 0
    proof { lemma_first(m, vis($5@), x); }
@loop 1
    visit(m, v0, vis($5@), g0, $2@, $1, x), first(m, vis($5@), x, $i as int),
@loopstart 1
    let ghost vi = vis($5@);
    proof { lemma_pushes($5@); if m.dom().contains(kids(x.0)[$i as int]) { lemma_child(m, x, $i as int); lemma_kids(m, v0, vi, g0, $2@, $1, x, y_of(m, x, $i as int)); } }
@loopafter 1
    proof { lemma_first(m, vis($5@), x); }
@endfn
/// everything below x is covered once it is visited
pub proof fn lemma_root(m: Schema, w: ISet<Nd>, g: Edges, h: Edges, s: ShapeLabelIdx, x: Nd)
    requires visit(m, ISet::empty(), w, g, h, s, x), covers(h, s, x), expanded(m, w, x),
    ensures forall|y: Nd, t: ShapeLabelIdx, p: PosNeg| #[trigger] refers(m, x, y, t, p) ==> has_edge(h, s, t, p)
{
    let d = w.insert(x);
    assert(closed(m, d)) by { assert forall|a: Nd, b: Nd| d.contains(a) && #[trigger] child(m, a, b) implies d.contains(b) by { if a != x { assert(w.contains(a)); assert(expanded(m, w, a)); } } }
    assert forall|y: Nd, t: ShapeLabelIdx, p: PosNeg| #[trigger] refers(m, x, y, t, p) implies has_edge(h, s, t, p) by { assert(d.contains(y)); if y != x { assert(w.contains(y)); } }
}
pub open spec fn done(m: Schema, v: Seq<(ShapeLabelIdx, ShapeExprInfo)>, n: int, g: Edges) -> bool {
    forall|k: int, t: ShapeLabelIdx, p: PosNeg| 0 <= k < n && #[trigger] depends(m, v[k].0, t, p) ==> has_edge(g, v[k].0, t, p)
}
pub open spec fn sound(m: Schema, g: Edges) -> bool { forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] g.dom().contains(k) ==> depends(m, k.0, k.1, g[k]) }
pub proof fn lemma_info(m: Schema, v: Seq<(ShapeLabelIdx, ShapeExprInfo)>, n: int, w: ISet<Nd>, g: Edges, h: Edges)
    requires entries(m, v), 0 <= n < v.len(), done(m, v, n, g), sound(m, g), visit(m, ISet::empty(), w, g, h, v[n].0, (v[n].1.expr, PosNeg::Pos)), covers(h, v[n].0, (v[n].1.expr, PosNeg::Pos)), expanded(m, w, (v[n].1.expr, PosNeg::Pos)),
    ensures done(m, v, n + 1, h), sound(m, h)
{
    let s = v[n].0; let x: Nd = (v[n].1.expr, PosNeg::Pos);
    assert(m[s] == v[n].1);
    lemma_root(m, w, g, h, s, x);
    assert forall|k: int, t: ShapeLabelIdx, p: PosNeg| 0 <= k < n + 1 && #[trigger] depends(m, v[k].0, t, p) implies has_edge(h, v[k].0, t, p) by {
        if k < n { assert(has_edge(g, v[k].0, t, p)); } else { let y = choose|y: Nd| refers(m, (m[s].expr, PosNeg::Pos), y, t, p); assert(refers(m, x, y, t, p)); }
    }
    assert forall|k: (ShapeLabelIdx, ShapeLabelIdx)| #[trigger] h.dom().contains(k) implies depends(m, k.0, k.1, h[k]) by {
        if !(g.dom().contains(k) && h[k] == g[k]) { let y = choose|y: Nd| refers(m, x, y, k.1, h[k]); assert(refers(m, (m[s].expr, PosNeg::Pos), y, k.1, h[k])); }
    }
}
pub proof fn lemma_graph(m: Schema, v: Seq<(ShapeLabelIdx, ShapeExprInfo)>, g: Edges) requires entries(m, v), done(m, v, v.len() as int, g), sound(m, g) ensures graph_of(m, g)
{
    assert forall|s: ShapeLabelIdx, t: ShapeLabelIdx, p: PosNeg| #[trigger] depends(m, s, t, p) implies has_edge(g, s, t, p) by { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == s; assert(depends(m, v[k].0, t, p)); }
    assert forall|s: ShapeLabelIdx, t: ShapeLabelIdx| #[trigger] g.dom().contains((s, t)) <==> depends(m, s, t, PosNeg::Pos) || depends(m, s, t, PosNeg::Neg) by {
        if g.dom().contains((s, t)) { assert(depends(m, s, t, g[(s, t)])); }
        if depends(m, s, t, PosNeg::Pos) { assert(has_edge(g, s, t, PosNeg::Pos)); }
        if depends(m, s, t, PosNeg::Neg) { assert(has_edge(g, s, t, PosNeg::Neg)); }
    }
    assert forall|s: ShapeLabelIdx, t: ShapeLabelIdx| #[trigger] neg(g, s, t) <==> depends(m, s, t, PosNeg::Neg) by {
        if neg(g, s, t) { assert(g.dom().contains((s, t))); assert(depends(m, s, t, g[(s, t)])); }
        if depends(m, s, t, PosNeg::Neg) { assert(has_edge(g, s, t, PosNeg::Neg)); }
    }
}
@file shex_ast/src/ir/schema_ir.rs
@fn SchemaIR::build_dependency_graph
@attrs #[verifier::loop_isolation(false)]
    ensures final(self).shapes == old(self).shapes, graph_of(final(self).shapes@, final(self).dependency_graph@),
@loop 0
    done(self.shapes@, $c@, $i as int, dep_graph@), sound(self.shapes@, dep_graph@), *self == *old(self),
@loopstart 0
    let ghost g1 = dep_graph@;
@afterlet visited
    proof { assert(vis(Seq::empty()) =~= ISet::<Nd>::empty()); assert(vis(visited@) =~= ISet::<Nd>::empty()); }
@loopend 0
    proof { lemma_info(self.shapes@, $c@, $i - 1, vis(visited@), g1, dep_graph@); }
@loopafter 0
    proof { lemma_graph(self.shapes@, $c@0@, dep_graph@); }
@endfn
@fn SchemaIR::has_neg_cycle r
    ensures r == cyclic(self.dependency_graph@),
@endfn
// ---- the theorem: has_neg_cycle after build_dependency_graph says whether some shape depends negatively on a shape that leads back to it ----
/// a set of shapes that no dependency leaves
pub open spec fn dkept(m: Schema, z: ISet<ShapeLabelIdx>) -> bool { forall|u: ShapeLabelIdx, v: ShapeLabelIdx, p: PosNeg| z.contains(u) && #[trigger] depends(m, u, v, p) ==> z.contains(v) }
pub open spec fn dleads(m: Schema, u: ShapeLabelIdx, v: ShapeLabelIdx) -> bool { forall|z: ISet<ShapeLabelIdx>| #[trigger] dkept(m, z) && z.contains(u) ==> z.contains(v) }
pub proof fn theorem_negation(m: Schema, g: Edges) requires graph_of(m, g) ensures cyclic(g) <==> exists|u: ShapeLabelIdx, v: ShapeLabelIdx| #[trigger] depends(m, u, v, PosNeg::Neg) && dleads(m, v, u)
{
    assert forall|z: ISet<ShapeLabelIdx>| #[trigger] kept(g, z) == dkept(m, z) by {
        if kept(g, z) { assert forall|u: ShapeLabelIdx, v: ShapeLabelIdx, p: PosNeg| z.contains(u) && #[trigger] depends(m, u, v, p) implies z.contains(v) by { assert(depends(m, u, v, PosNeg::Pos) || depends(m, u, v, PosNeg::Neg)); assert(g.dom().contains((u, v))); } }
        if dkept(m, z) { assert forall|u: ShapeLabelIdx, v: ShapeLabelIdx| z.contains(u) && #[trigger] g.dom().contains((u, v)) implies z.contains(v) by { assert(depends(m, u, v, PosNeg::Pos) || depends(m, u, v, PosNeg::Neg)); } }
    }
    assert forall|u: ShapeLabelIdx, v: ShapeLabelIdx| leads(g, v, u) == dleads(m, v, u) by {
        if leads(g, v, u) { assert forall|z: ISet<ShapeLabelIdx>| #[trigger] dkept(m, z) && z.contains(v) implies z.contains(u) by { assert(kept(g, z)); } }
        if dleads(m, v, u) { assert forall|z: ISet<ShapeLabelIdx>| #[trigger] kept(g, z) && z.contains(v) implies z.contains(u) by { assert(dkept(m, z)); } }
    }
    if cyclic(g) { let (u, v) = choose|u: ShapeLabelIdx, v: ShapeLabelIdx| #[trigger] neg(g, u, v) && leads(g, v, u); assert(depends(m, u, v, PosNeg::Neg) && dleads(m, v, u)); }
    if exists|u: ShapeLabelIdx, v: ShapeLabelIdx| #[trigger] depends(m, u, v, PosNeg::Neg) && dleads(m, v, u) { let (u, v) = choose|u: ShapeLabelIdx, v: ShapeLabelIdx| #[trigger] depends(m, u, v, PosNeg::Neg) && dleads(m, v, u); assert(neg(g, u, v) && leads(g, v, u)); }
}
// ---- the validator refuses such schemas ----
@erase-path ValidatorError::* verr()
@remap-method clone dup
@erase-macro format Text::any()
#[verifier::external_body] pub struct VErr { x: u64 }
#[verifier::external_body] pub fn verr() -> VErr { unimplemented!() }
#[verifier::external_body] pub struct Text { x: u64 }
impl Text { #[verifier::external_body] pub fn any() -> Text { unimplemented!() } }
pub trait Items { fn vx_items(&self) -> (r: Vec<ShapeLabelIdx>); }
impl Items for Vec<ShapeLabelIdx> { #[verifier::external_body] fn vx_items(&self) -> (r: Vec<ShapeLabelIdx>) { unimplemented!() } }
#[verifier::external_body] pub struct ShapeLabel { x: u64 }
pub struct ValidatorConfig { pub check_negation_requirement: bool }
pub struct Validator { pub schema: SchemaIR, pub config: ValidatorConfig }
impl ValidatorConfig { #[verifier::external_body] pub fn dup(&self) -> (r: ValidatorConfig) ensures r == *self { unimplemented!() } }
impl SchemaIR {
    #[verifier::external_body] pub fn dup(&self) -> (r: SchemaIR) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn shape_label_from_idx(&self, i: &ShapeLabelIdx) -> (r: Option<&ShapeLabel>) { unimplemented!() }
    #[verifier::external_body] pub fn show_label(&self, l: &ShapeLabel) -> (r: Text) { unimplemented!() }
}
@file shex_ast/src/ir/schema_ir.rs
@fn SchemaIR::neg_cycles r
    ensures (r@.len() > 0) == cyclic(self.dependency_graph@),
@endfn
@file shex_validation/src/validator.rs
@fn Validator::with_neg_cycle_check r
@ret Result<Validator, VErr>
    ensures r is Err <==> $3 && $2.check_negation_requirement && cyclic($1.dependency_graph@),
@endfn
@fn Validator::new r
@ret Result<Validator, VErr>
    ensures r is Err <==> $2.check_negation_requirement && cyclic($1.dependency_graph@),
@endfn
