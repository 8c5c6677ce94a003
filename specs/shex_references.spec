// ---- references and predicates of a shape expression: everything below it, each expression once ----
@subst-type HashMap RefMap
@erase-generics RefMap
@subst-type Expr ShapeBody
@subst-type Cond MatchCond
@erase-generics MatchCond
@iter-result components cond_references
@byval-iter components cond_references
@seq-method cond_references
@remap-method unwrap_or_default fn:vx_or_empty
@remap-method clone dup
@iter-via refs vx_items
@byval-iter refs
@byval-iter references_visited
@iter-result references_visited
@iter-via references_visited() vx_items
#[derive(PartialEq, Eq, Clone, Copy)] pub struct ShapeLabelIdx { pub id: usize }
#[verifier::external_body] pub struct NodeConstraint { x: u64 }
#[verifier::external_body] pub struct Pred { x: u64 }
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for Vec<Pred> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn any_pred() -> Pred;
impl Pred { #[verifier::external_body] pub fn default() -> (r: Pred) ensures r == any_pred() { unimplemented!() } }
#[verifier::external_body] pub struct SingleCond { x: u64 }
#[verifier::external_body] pub struct Component { x: u64 }
pub enum MatchCond { Single(SingleCond), And(Vec<MatchCond>), Ref(ShapeLabelIdx) }
#[verifier::external_body] pub struct ShapeBody { x: u64 }
/// the triple constraints of a triple expression (listed by RbeTable::components: unit S10t)
pub uninterp spec fn comps(b: ShapeBody) -> Seq<(Component, Pred, MatchCond)>;
impl ShapeBody {
    #[verifier::external_body] pub fn components(&self) -> (r: Vec<(Component, Pred, MatchCond)>) ensures r@ == comps(*self) { unimplemented!() }
}
// ---- sets and maps of the standard library: trusted ----
pub trait Items<A> { spec fn items(&self) -> ISet<A>; }
impl<A> Items<A> for Vec<A> { open spec fn items(&self) -> ISet<A> { ISet::new(|x: A| self@.contains(x)) } }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct HashSet<A> { a: core::marker::PhantomData<A> }
impl<A> View for HashSet<A> { type V = ISet<A>; uninterp spec fn view(&self) -> ISet<A>; }
impl<A> Items<A> for HashSet<A> { open spec fn items(&self) -> ISet<A> { self@ } }
impl<A> HashSet<A> {
    #[verifier::external_body] pub fn new() -> (r: HashSet<A>) ensures r@ == ISet::<A>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &A) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: A) -> (r: bool) ensures r == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn extend<X: Items<A>>(&mut self, x: X) ensures final(self)@ == old(self)@.union(x.items()) { unimplemented!() }
}
/// a map from predicates to lists of shapes, as the pairs it has
pub type Pairs = ISet<(Pred, ShapeLabelIdx)>;
#[verifier::external_body] pub struct RefMap { x: u64 }
impl View for RefMap { type V = Pairs; uninterp spec fn view(&self) -> Pairs; }
pub open spec fn at(v: Seq<(Pred, Vec<ShapeLabelIdx>)>, n: int, q: (Pred, ShapeLabelIdx)) -> bool { exists|k: int| 0 <= k < n && (#[trigger] v[k]).0 == q.0 && v[k].1@.contains(q.1) }
pub open spec fn pairs(v: Seq<(Pred, Vec<ShapeLabelIdx>)>) -> Pairs { ISet::new(|q: (Pred, ShapeLabelIdx)| at(v, v.len() as int, q)) }
impl RefMap {
    #[verifier::external_body] pub fn new() -> (r: RefMap) ensures r@ == Pairs::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: Pred, v: Vec<ShapeLabelIdx>) -> (r: Option<Vec<ShapeLabelIdx>>)
        ensures forall|q: (Pred, ShapeLabelIdx)| #[trigger] final(self)@.contains(q) <==> if q.0 == p { v@.contains(q.1) } else { old(self)@.contains(q) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_extend_at(&mut self, p: Pred, v: Vec<ShapeLabelIdx>)
        ensures forall|q: (Pred, ShapeLabelIdx)| #[trigger] final(self)@.contains(q) <==> old(self)@.contains(q) || (q.0 == p && v@.contains(q.1)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(self) -> (r: Vec<(Pred, Vec<ShapeLabelIdx>)>)
        ensures self@ == pairs(r@), forall|q: (Pred, ShapeLabelIdx)| #[trigger] self@.contains(q) <==> at(r@, r@.len() as int, q) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_or_empty(o: Option<RefMap>) -> (r: RefMap) ensures r@ == match o { Some(m) => m@, None => Pairs::empty() } { unimplemented!() }
@file shex_ast/src/ir/shape.rs
@type struct Shape drop=closed,sem_acts,annotations,extra
@file shex_ast/src/ir/shape_expr.rs
@type enum ShapeExpr
@file shex_ast/src/ir/shape_expr_info.rs
@type struct ShapeExprInfo drop=label,source
pub type Schema = IMap<ShapeLabelIdx, ShapeExprInfo>;
#[verifier::external_body] pub struct SchemaIR { x: u64 }
impl View for SchemaIR { type V = Schema; uninterp spec fn view(&self) -> Schema; }
impl SchemaIR {
    /// proved in unit S10
    #[verifier::external_body] pub fn find_shape_idx(&self, i: &ShapeLabelIdx) -> (r: Option<&ShapeExprInfo>) ensures r is Some <==> self@.dom().contains(*i), r matches Some(x) ==> *x == self@[*i] { unimplemented!() }
}

// ---- the meaning ----
pub open spec fn crefs(c: MatchCond) -> ISet<ShapeLabelIdx> decreases c {
    match c {
        MatchCond::Single(_) => ISet::empty(),
        MatchCond::Ref(r) => ISet::empty().insert(r),
        MatchCond::And(v) => ISet::new(|t: ShapeLabelIdx| exists|k: int| 0 <= k < v@.len() && crefs(#[trigger] v@[k]).contains(t)),
    }
}
pub open spec fn some_refs(v: Seq<MatchCond>, n: int, t: ShapeLabelIdx) -> bool { exists|k: int| 0 <= k < n && crefs(#[trigger] v[k]).contains(t) }
/// the first n triple constraints of s refer to q.1 by the predicate q.0
pub open spec fn tc_ref(s: Shape, n: int, q: (Pred, ShapeLabelIdx)) -> bool { exists|k: int| 0 <= k < n && (#[trigger] comps(s.expr)[k]).1 == q.0 && crefs(comps(s.expr)[k].2).contains(q.1) }
/// a shape expression itself refers to q.1 by q.0 (references outside of triple constraints have no predicate)
pub open spec fn own(e: ShapeExpr, q: (Pred, ShapeLabelIdx)) -> bool {
    match e { ShapeExpr::Shape(s) => tc_ref(*s, comps(s.expr).len() as int, q), ShapeExpr::Ref { idx } => q == (any_pred(), idx), _ => false }
}
/// what a shape expression is made of: operands, the shape it refers to, the shapes it extends
pub open spec fn nxt(e: ShapeExpr) -> Seq<ShapeLabelIdx> {
    match e { ShapeExpr::ShapeOr { exprs } => exprs@, ShapeExpr::ShapeAnd { exprs } => exprs@, ShapeExpr::ShapeNot { expr } => seq![expr], ShapeExpr::Ref { idx } => seq![idx], ShapeExpr::Shape(s) => s.extends@, _ => Seq::empty() }
}
pub open spec fn below(z: ISet<ShapeLabelIdx>, e: ShapeExpr) -> bool { forall|j: int| 0 <= j < nxt(e).len() ==> z.contains(#[trigger] nxt(e)[j]) }
pub open spec fn kept(m: Schema, z: ISet<ShapeLabelIdx>) -> bool { forall|i: ShapeLabelIdx| #[trigger] z.contains(i) && m.dom().contains(i) ==> below(z, m[i].expr) }
pub open spec fn reaches(m: Schema, e: ShapeExpr, i: ShapeLabelIdx) -> bool { forall|z: ISet<ShapeLabelIdx>| #[trigger] kept(m, z) && below(z, e) ==> z.contains(i) }
pub open spec fn owns(m: Schema, e: ShapeExpr, i: ShapeLabelIdx, q: (Pred, ShapeLabelIdx)) -> bool { reaches(m, e, i) && m.dom().contains(i) && own(m[i].expr, q) }
/// e, or something below it, refers to q.1 by q.0
pub open spec fn refers(m: Schema, e: ShapeExpr, q: (Pred, ShapeLabelIdx)) -> bool { own(e, q) || exists|i: ShapeLabelIdx| #[trigger] owns(m, e, i, q) }
pub open spec fn all_own(e: ShapeExpr, r: Pairs) -> bool { forall|q: (Pred, ShapeLabelIdx)| #[trigger] own(e, q) ==> r.contains(q) }
pub open spec fn sound(m: Schema, e: ShapeExpr, r: Pairs) -> bool { forall|q: (Pred, ShapeLabelIdx)| #[trigger] r.contains(q) ==> refers(m, e, q) }
/// expressions met between v and w are accounted for in r, and what they are made of is met as well
pub open spec fn grown(m: Schema, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: Pairs) -> bool {
    v.subset_of(w) && forall|i: ShapeLabelIdx| #[trigger] w.contains(i) && !v.contains(i) && m.dom().contains(i) ==> all_own(m[i].expr, r) && below(w, m[i].expr)
}
pub open spec fn visit(m: Schema, e: ShapeExpr, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: Pairs) -> bool { grown(m, v, w, r) && all_own(e, r) && below(w, e) && sound(m, e, r) }
/// while the parts of e are visited: the first n are done
pub open spec fn part(m: Schema, e: ShapeExpr, n: int, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: Pairs) -> bool {
    grown(m, v, w, r) && sound(m, e, r) && forall|j: int| 0 <= j < n ==> w.contains(#[trigger] nxt(e)[j])
}
pub proof fn lemma_down(m: Schema, e: ShapeExpr, j: int, r: Pairs)
    requires 0 <= j < nxt(e).len(), m.dom().contains(nxt(e)[j]), sound(m, m[nxt(e)[j]].expr, r),
    ensures sound(m, e, r),
{
    let i0 = nxt(e)[j];
    let f = m[i0].expr;
    assert(reaches(m, e, i0));
    assert forall|i: ShapeLabelIdx| #[trigger] reaches(m, f, i) implies reaches(m, e, i) by {
        assert forall|z: ISet<ShapeLabelIdx>| #[trigger] kept(m, z) && below(z, e) implies z.contains(i) by { assert(z.contains(i0)); assert(below(z, f)); }
    }
    assert forall|q: (Pred, ShapeLabelIdx)| #[trigger] r.contains(q) implies refers(m, e, q) by {
        if own(f, q) { assert(owns(m, e, i0, q)); } else { let i = choose|i: ShapeLabelIdx| #[trigger] owns(m, f, i, q); assert(owns(m, e, i, q)); }
    }
}
/// one more part
pub proof fn lemma_part(m: Schema, e: ShapeExpr, n: int, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: Pairs, w2: ISet<ShapeLabelIdx>, s: Pairs, r2: Pairs)
    requires part(m, e, n, v, w, r), 0 <= n < nxt(e).len(), r2 == r.union(s),
        w.contains(nxt(e)[n]) || !m.dom().contains(nxt(e)[n]) ==> w2 == w.insert(nxt(e)[n]) && s == Pairs::empty(),
        !w.contains(nxt(e)[n]) && m.dom().contains(nxt(e)[n]) ==> visit(m, m[nxt(e)[n]].expr, w.insert(nxt(e)[n]), w2, s),
    ensures part(m, e, n + 1, v, w2, r2),
{
    let i0 = nxt(e)[n];
    assert(w.insert(i0).subset_of(w2));
    assert(w2.contains(i0));
    if !w.contains(i0) && m.dom().contains(i0) { lemma_down(m, e, n, s); }
    assert forall|i: ShapeLabelIdx| #[trigger] w2.contains(i) && !v.contains(i) && m.dom().contains(i) implies all_own(m[i].expr, r2) && below(w2, m[i].expr) by {
        if w.contains(i) { assert(all_own(m[i].expr, r)); assert(below(w, m[i].expr)); }
        else if i == i0 { }
        else { assert(!w.insert(i0).contains(i)); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies w2.contains(#[trigger] nxt(e)[j]) by { if j < n { assert(w.contains(nxt(e)[j])); } }
}
/// a visit from nothing meets everything below, and finds exactly what it refers to
pub proof fn theorem_references(m: Schema, e: ShapeExpr, w: ISet<ShapeLabelIdx>, r: Pairs)
    requires visit(m, e, ISet::empty(), w, r),
    ensures forall|q: (Pred, ShapeLabelIdx)| #[trigger] r.contains(q) <==> refers(m, e, q),
{
    assert(kept(m, w)) by { assert forall|i: ShapeLabelIdx| #[trigger] w.contains(i) && m.dom().contains(i) implies below(w, m[i].expr) by { assert(!ISet::<ShapeLabelIdx>::empty().contains(i)); } }
    assert forall|q: (Pred, ShapeLabelIdx)| refers(m, e, q) implies #[trigger] r.contains(q) by {
        if !own(e, q) { let i = choose|i: ShapeLabelIdx| #[trigger] owns(m, e, i, q); assert(w.contains(i)); assert(!ISet::<ShapeLabelIdx>::empty().contains(i)); assert(all_own(m[i].expr, r)); }
    }
}
pub proof fn lemma_refs(a: Seq<ShapeLabelIdx>, c: Seq<ShapeLabelIdx>, v: Seq<MatchCond>, n: int)
    requires 0 <= n < v.len(), forall|t: ShapeLabelIdx| #[trigger] a.contains(t) <==> some_refs(v, n, t), forall|t: ShapeLabelIdx| #[trigger] c.contains(t) <==> crefs(v[n]).contains(t)
    ensures forall|t: ShapeLabelIdx| #[trigger] (a + c).contains(t) <==> some_refs(v, n + 1, t)
{
    assert forall|t: ShapeLabelIdx| #[trigger] (a + c).contains(t) <==> some_refs(v, n + 1, t) by {
        if (a + c).contains(t) { let k = choose|k: int| 0 <= k < (a + c).len() && (a + c)[k] == t; if k < a.len() { assert(a[k] == t); assert(a.contains(t)); } else { assert(c[k - a.len()] == t); assert(c.contains(t)); } }
        if some_refs(v, n + 1, t) {
            let k = choose|k: int| 0 <= k < n + 1 && crefs(#[trigger] v[k]).contains(t);
            if k < n { assert(some_refs(v, n, t)); assert(a.contains(t)); let j = choose|j: int| 0 <= j < a.len() && a[j] == t; assert((a + c)[j] == t); }
            else { assert(c.contains(t)); let j = choose|j: int| 0 <= j < c.len() && c[j] == t; assert((a + c)[a.len() + j] == t); }
        }
    }
}
@file shex_ast/src/ir/shape_expr_info.rs
@fn ShapeExprInfo::expr r
    ensures *r == self.expr,
@endfn
@file shex_ast/src/ir/shape.rs
@fn cond_references r
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
    ensures forall|t: ShapeLabelIdx| #[trigger] r@.contains(t) <==> crefs(*$1).contains(t),
@start
    proof { assert forall|r: ShapeLabelIdx, t: ShapeLabelIdx| #[trigger] Seq::<ShapeLabelIdx>::empty().push(r).contains(t) <==> t == r by { assert(Seq::<ShapeLabelIdx>::empty().push(r)[0] == r); } }
@loop 0
    forall|t: ShapeLabelIdx| #[trigger] $acc@.contains(t) <==> some_refs(match_conds@, $i as int, t),
@loopbefore 1
    let ghost base = $acc@0@;
@loop 1
    $acc@0@ =~= base + $c@.take($i as int),
@loopafter 1
    proof { lemma_refs(base, $c@1@, match_conds@, $i@0 - 1); assert($c@1@.take($c@1@.len() as int) =~= $c@1@); }
@loopafter 0
    proof { assert forall|t: ShapeLabelIdx| #[trigger] $acc@0@.contains(t) <==> crefs(*$1).contains(t) by { assert(some_refs(match_conds@, match_conds@.len() as int, t) <==> crefs(*$1).contains(t)); } }
@endfn
@fn Shape::get_value_expr_references r
@attrs #[verifier::loop_isolation(false)]
    ensures forall|q: (Pred, ShapeLabelIdx)| #[trigger] r@.contains(q) <==> tc_ref(*self, comps(self.expr).len() as int, q),
@loop 0
    $c@ == comps(self.expr),
    forall|q: (Pred, ShapeLabelIdx)| #[trigger] result@.contains(q) <==> tc_ref(*self, $i as int, q),
@loopstart 0
    let ghost a0 = result@;
@loopend 0
    proof { assert forall|q: (Pred, ShapeLabelIdx)| #[trigger] result@.contains(q) <==> tc_ref(*self, $i@0 as int, q) by {
        let k = $i@0 - 1;
        assert(refs@.contains(q.1) <==> crefs(comps(self.expr)[k].2).contains(q.1));
        assert(tc_ref(*self, $i@0 as int, q) <==> tc_ref(*self, k, q) || (comps(self.expr)[k].1 == q.0 && crefs(comps(self.expr)[k].2).contains(q.1)));
        assert(a0.contains(q) <==> tc_ref(*self, k, q));
    } }
@endfn
@fn Shape::references_visited r
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
    ensures visit($1@, ShapeExpr::Shape(Box::new(*self)), old($2)@, final($2)@, r@),
@start
    let ghost me = ShapeExpr::Shape(Box::new(*self));
@loop 0
    part(schema@, me, $i as int, old(visited)@, visited@, result@), all_own(me, result@),
@loopstart 0
    let ghost w0 = visited@;
    let ghost a0 = result@;
    let ghost mut s0 = Pairs::empty();
@afterlet refs
    proof { s0 = refs@; }
@loop 1
    forall|q: (Pred, ShapeLabelIdx)| #[trigger] result@.contains(q) <==> a0.contains(q) || at($c@, $i as int, q),
@loopend 0
    proof { assert(result@ =~= a0.union(s0)); lemma_part(schema@, me, $i@0 - 1, old(visited)@, w0, a0, visited@, s0, result@); }
@endfn
@file shex_ast/src/ir/shape_expr.rs
@fn ShapeExpr::references_visited r
@optmap
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
    ensures visit($1@, *self, old($2)@, final($2)@, r@),
@start
    proof { assert forall|r: ShapeLabelIdx, t: ShapeLabelIdx| #[trigger] Seq::<ShapeLabelIdx>::empty().push(r).contains(t) <==> t == r by { assert(Seq::<ShapeLabelIdx>::empty().push(r)[0] == r); } }
    let ghost mut w0 = visited@;
    let ghost mut a0 = Pairs::empty();
    let ghost mut s0 = Pairs::empty();
@loop 0
    part(schema@, *self, $i as int, old(visited)@, visited@, $acc@),
@loopstart 0
    proof { w0 = visited@; a0 = $acc@0@; }
@afterlet refs
    proof { s0 = refs@; }
@loop 1
    forall|q: (Pred, ShapeLabelIdx)| #[trigger] acc@.contains(q) <==> a0.contains(q) || at($c@, $i as int, q),
@loopafter 1
    proof { assert(acc@ =~= a0.union(s0)); lemma_part(schema@, *self, $i@0 - 1, old(visited)@, w0, a0, visited@, s0, acc@); }
@loop 2
    part(schema@, *self, $i as int, old(visited)@, visited@, $acc@),
@loopstart 2
    proof { w0 = visited@; a0 = $acc@2@; }
@loop 3
    forall|q: (Pred, ShapeLabelIdx)| #[trigger] acc@.contains(q) <==> a0.contains(q) || at($c@, $i as int, q),
@loopafter 3
    proof { assert(acc@ =~= a0.union(s0)); lemma_part(schema@, *self, $i@2 - 1, old(visited)@, w0, a0, visited@, s0, acc@); }
@loopbefore 4
    proof { a0 = map@; }
@loop 4
    forall|q: (Pred, ShapeLabelIdx)| #[trigger] map@.contains(q) <==> a0.contains(q) || at($c@, $i as int, q),
@loopafter 4
    proof { s0 = pairs($c@4@); }
@leaf
    proof {
        let v0 = old(visited)@;
        match *self {
            ShapeExpr::ShapeNot { expr } => { assert(Pairs::empty().union(vx_leaf@) =~= vx_leaf@); lemma_part(schema@, *self, 0, v0, v0, Pairs::empty(), visited@, vx_leaf@, vx_leaf@); }
            ShapeExpr::Ref { idx } => {
                let a1 = Pairs::empty().insert((any_pred(), idx));
                assert(vx_leaf@ =~= a1.union(s0));
                lemma_part(schema@, *self, 0, v0, v0, a1, visited@, s0, vx_leaf@);
            }
            _ => {}
        }
    }
@endfn
@fn ShapeExpr::references r
@attrs #[verifier::exec_allows_no_decreases_clause]
    ensures forall|q: (Pred, ShapeLabelIdx)| #[trigger] r@.contains(q) <==> refers($1@, *self, q),
@leaf
    proof { theorem_references(schema@, *self, visited@, vx_leaf@); }
@endfn

// ---- the predicates of a shape expression: those of the shapes below it (shapes that are extended not counted) ----
pub open spec fn pown(e: ShapeExpr, p: Pred) -> bool { match e { ShapeExpr::Shape(s) => s.preds@.contains(p), _ => false } }
pub open spec fn pnxt(e: ShapeExpr) -> Seq<ShapeLabelIdx> { match e { ShapeExpr::Shape(_) => Seq::empty(), _ => nxt(e) } }
/// operands and referenced shapes are in the schema
pub open spec fn linked(m: Schema, e: ShapeExpr) -> bool { forall|j: int| 0 <= j < pnxt(e).len() ==> m.dom().contains(#[trigger] pnxt(e)[j]) }
pub open spec fn all_linked(m: Schema) -> bool { forall|i: ShapeLabelIdx| #[trigger] m.dom().contains(i) ==> linked(m, m[i].expr) }
pub open spec fn pbelow(z: ISet<ShapeLabelIdx>, e: ShapeExpr) -> bool { forall|j: int| 0 <= j < pnxt(e).len() ==> z.contains(#[trigger] pnxt(e)[j]) }
pub open spec fn pkept(m: Schema, z: ISet<ShapeLabelIdx>) -> bool { forall|i: ShapeLabelIdx| #[trigger] z.contains(i) && m.dom().contains(i) ==> pbelow(z, m[i].expr) }
pub open spec fn preaches(m: Schema, e: ShapeExpr, i: ShapeLabelIdx) -> bool { forall|z: ISet<ShapeLabelIdx>| #[trigger] pkept(m, z) && pbelow(z, e) ==> z.contains(i) }
pub open spec fn powns(m: Schema, e: ShapeExpr, i: ShapeLabelIdx, p: Pred) -> bool { preaches(m, e, i) && m.dom().contains(i) && pown(m[i].expr, p) }
/// e, or something below it, is a shape with the predicate p
pub open spec fn mentions(m: Schema, e: ShapeExpr, p: Pred) -> bool { pown(e, p) || exists|i: ShapeLabelIdx| #[trigger] powns(m, e, i, p) }
pub open spec fn pall(e: ShapeExpr, r: ISet<Pred>) -> bool { forall|p: Pred| #[trigger] pown(e, p) ==> r.contains(p) }
pub open spec fn psound(m: Schema, e: ShapeExpr, r: ISet<Pred>) -> bool { forall|p: Pred| #[trigger] r.contains(p) ==> mentions(m, e, p) }
pub open spec fn pgrown(m: Schema, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: ISet<Pred>) -> bool {
    v.subset_of(w) && forall|i: ShapeLabelIdx| #[trigger] w.contains(i) && !v.contains(i) && m.dom().contains(i) ==> pall(m[i].expr, r) && pbelow(w, m[i].expr)
}
pub open spec fn pvisit(m: Schema, e: ShapeExpr, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: ISet<Pred>) -> bool { pgrown(m, v, w, r) && pall(e, r) && pbelow(w, e) && psound(m, e, r) }
pub open spec fn ppart(m: Schema, e: ShapeExpr, n: int, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: ISet<Pred>) -> bool {
    pgrown(m, v, w, r) && psound(m, e, r) && forall|j: int| 0 <= j < n ==> w.contains(#[trigger] pnxt(e)[j])
}
pub proof fn lemma_pdown(m: Schema, e: ShapeExpr, j: int, r: ISet<Pred>)
    requires 0 <= j < pnxt(e).len(), m.dom().contains(pnxt(e)[j]), psound(m, m[pnxt(e)[j]].expr, r),
    ensures psound(m, e, r),
{
    let i0 = pnxt(e)[j];
    let f = m[i0].expr;
    assert(preaches(m, e, i0));
    assert forall|i: ShapeLabelIdx| #[trigger] preaches(m, f, i) implies preaches(m, e, i) by {
        assert forall|z: ISet<ShapeLabelIdx>| #[trigger] pkept(m, z) && pbelow(z, e) implies z.contains(i) by { assert(z.contains(i0)); assert(pbelow(z, f)); }
    }
    assert forall|p: Pred| #[trigger] r.contains(p) implies mentions(m, e, p) by {
        if pown(f, p) { assert(powns(m, e, i0, p)); } else { let i = choose|i: ShapeLabelIdx| #[trigger] powns(m, f, i, p); assert(powns(m, e, i, p)); }
    }
}
pub proof fn lemma_ppart(m: Schema, e: ShapeExpr, n: int, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: ISet<Pred>, w2: ISet<ShapeLabelIdx>, s: ISet<Pred>, r2: ISet<Pred>)
    requires ppart(m, e, n, v, w, r), 0 <= n < pnxt(e).len(), r2 == r.union(s), m.dom().contains(pnxt(e)[n]),
        pvisit(m, m[pnxt(e)[n]].expr, w.insert(pnxt(e)[n]), w2, s),
    ensures ppart(m, e, n + 1, v, w2, r2),
{
    let i0 = pnxt(e)[n];
    assert(w.insert(i0).subset_of(w2));
    lemma_pdown(m, e, n, s);
    assert forall|i: ShapeLabelIdx| #[trigger] w2.contains(i) && !v.contains(i) && m.dom().contains(i) implies pall(m[i].expr, r2) && pbelow(w2, m[i].expr) by {
        if i == i0 { } else if w.contains(i) { assert(pall(m[i].expr, r)); assert(pbelow(w, m[i].expr)); } else { assert(!w.insert(i0).contains(i)); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies w2.contains(#[trigger] pnxt(e)[j]) by { if j < n { assert(w.contains(pnxt(e)[j])); } }
}
pub proof fn lemma_all(m: Schema, e: ShapeExpr, n: int, v: ISet<ShapeLabelIdx>, w: ISet<ShapeLabelIdx>, r: ISet<Pred>, w2: ISet<ShapeLabelIdx>, r2: ISet<Pred>)
    requires ppart(m, e, n, v, w, r), 0 <= n < pnxt(e).len(), m.dom().contains(pnxt(e)[n]),
        exists|s: ISet<Pred>| #[trigger] pvisit(m, m[pnxt(e)[n]].expr, w.insert(pnxt(e)[n]), w2, s) && r2 == r.union(s),
    ensures ppart(m, e, n + 1, v, w2, r2),
{
    let s = choose|s: ISet<Pred>| #[trigger] pvisit(m, m[pnxt(e)[n]].expr, w.insert(pnxt(e)[n]), w2, s) && r2 == r.union(s);
    lemma_ppart(m, e, n, v, w, r, w2, s, r2);
}
pub proof fn theorem_predicates(m: Schema, e: ShapeExpr, w: ISet<ShapeLabelIdx>, r: ISet<Pred>)
    requires pvisit(m, e, ISet::empty(), w, r),
    ensures forall|p: Pred| #[trigger] r.contains(p) <==> mentions(m, e, p),
{
    assert(pkept(m, w)) by { assert forall|i: ShapeLabelIdx| #[trigger] w.contains(i) && m.dom().contains(i) implies pbelow(w, m[i].expr) by { assert(!ISet::<ShapeLabelIdx>::empty().contains(i)); } }
    assert forall|p: Pred| mentions(m, e, p) implies #[trigger] r.contains(p) by {
        if !pown(e, p) { let i = choose|i: ShapeLabelIdx| #[trigger] powns(m, e, i, p); assert(w.contains(i)); assert(!ISet::<ShapeLabelIdx>::empty().contains(i)); assert(pall(m[i].expr, r)); }
    }
}
@file shex_ast/src/ir/shape.rs
@fn Shape::preds r
    ensures r@ =~= self.preds@,
@endfn
@file shex_ast/src/ir/shape_expr.rs
@fn ShapeExpr::preds_visited r
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
    requires all_linked($1@), linked($1@, *self),
    ensures pvisit($1@, *self, old($2)@, final($2)@, r@),
@start
    let ghost mut w0 = visited@;
    let ghost mut a0 = ISet::<Pred>::empty();
    proof { if pnxt(*self).len() > 0 { assert(schema@.dom().contains(pnxt(*self)[0])); } }
@loop 0
    ppart(schema@, *self, $i as int, old(visited)@, visited@, preds@),
@loopstart 0
    proof { w0 = visited@; a0 = preds@; assert(schema@.dom().contains(pnxt(*self)[$i@0 as int])); }
@loopend 0
    proof { lemma_all(schema@, *self, $i@0 - 1, old(visited)@, w0, a0, visited@, preds@); }
@loop 1
    ppart(schema@, *self, $i as int, old(visited)@, visited@, preds@),
@loopstart 1
    proof { w0 = visited@; a0 = preds@; assert(schema@.dom().contains(pnxt(*self)[$i@1 as int])); }
@loopend 1
    proof { lemma_all(schema@, *self, $i@1 - 1, old(visited)@, w0, a0, visited@, preds@); }
@leaf
    proof {
        let v0 = old(visited)@;
        match *self {
            ShapeExpr::ShapeNot { expr } => { lemma_all(schema@, *self, 0, v0, v0, ISet::<Pred>::empty(), visited@, vx_leaf@); }
            ShapeExpr::Ref { idx } => { if !v0.contains(idx) { lemma_all(schema@, *self, 0, v0, v0, ISet::<Pred>::empty(), visited@, vx_leaf@); } }
            _ => {}
        }
    }
@endfn
@fn ShapeExpr::preds r
@attrs #[verifier::exec_allows_no_decreases_clause]
    requires all_linked($1@), linked($1@, *self),
    ensures forall|p: Pred| #[trigger] r@.contains(p) <==> mentions($1@, *self, p),
@leaf
    proof { theorem_predicates(schema@, *self, visited@, vx_leaf@); }
@endfn
impl SchemaIR {
    pub uninterp spec fn up(&self, i: ShapeLabelIdx) -> Seq<ShapeLabelIdx>;
    /// the shapes that a shape extends, directly or not (petgraph: trusted)
    #[verifier::external_body] pub fn parents(&self, i: &ShapeLabelIdx) -> (r: Vec<ShapeLabelIdx>) ensures r@ == self.up(*i) { unimplemented!() }
}
/// one of the first n parents of i mentions p
pub open spec fn inherited(c: SchemaIR, i: ShapeLabelIdx, n: int, p: Pred) -> bool { exists|k: int| 0 <= k < n && c@.dom().contains(#[trigger] c.up(i)[k]) && mentions(c@, c@[c.up(i)[k]].expr, p) }
@iter-result parents
@known parents
@known find_shape_idx
@file shex_ast/src/ir/schema_ir.rs
@fn SchemaIR::get_preds_extends r
@attrs #[verifier::loop_isolation(false)]
    requires all_linked(self@),
    ensures forall|p: Pred| #[trigger] r@.contains(p) <==> self@.dom().contains(*$1) && (mentions(self@, self@[*$1].expr, p) || inherited(*self, *$1, self.up(*$1).len() as int, p)),
@loop 0
    $c@ == self.up(*$1),
    forall|p: Pred| #[trigger] preds@.contains(p) <==> mentions(self@, self@[*$1].expr, p) || inherited(*self, *$1, $i as int, p),
@loopstart 0
    let ghost a0 = preds@;
@loopend 0
    proof { assert forall|p: Pred| #[trigger] preds@.contains(p) <==> mentions(self@, self@[*$1].expr, p) || inherited(*self, *$1, $i@0 as int, p) by {
        let j = self.up(*$1)[$i@0 - 1];
        assert(inherited(*self, *$1, $i@0 as int, p) <==> inherited(*self, *$1, $i@0 - 1, p) || (self@.dom().contains(j) && mentions(self@, self@[j].expr, p)));
        assert(a0.contains(p) <==> mentions(self@, self@[*$1].expr, p) || inherited(*self, *$1, $i@0 - 1, p));
    } }
@endfn
