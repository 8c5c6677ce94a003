// ---- recursive schemas: the greatest typing ----
@subst-type R Rdf
@known add_reasons
@known add_errors
@subst-type PosAtom Pair
@subst-type NegAtom Pair
@remap-method clone dup
@iter-via candidates vx_items
@iter-via hyp_as_set vx_items
@iter-method difference
@byval-iter cleaned_candidates
@subst-type HashSet Pairs
@subst-type HashMap Memo
@erase-generics Pairs Memo IndexSet
@iter-via checked vx_items
@iter-via pending vx_items
@subst-type ValidatorError VErr
@erase-path ValidatorError::* verr()
@erase-path Reason::* reason()
#[verifier::external_body] pub struct Rdf { x: u64 }
#[verifier::external_body] pub struct SchemaIR { x: u64 }
#[verifier::external_body] pub struct ValidatorConfig { x: u64 }
impl ValidatorConfig {
    #[verifier::external_body] pub fn dup(&self) -> (r: ValidatorConfig) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn width(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body] pub struct VErr { x: u64 }
#[verifier::external_body] pub fn verr() -> VErr { unimplemented!() }
#[verifier::external_body] pub struct Reason { x: u64 }
#[verifier::external_body] pub fn reason() -> Reason { unimplemented!() }
#[derive(Clone, Copy)] pub struct ShapeLabelIdx { pub id: usize }
#[verifier::external_body] pub struct Shape { x: u64 }
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (v: &[T]) -> (r: Vec<T>) ensures r@ == v@;
#[verifier::external_body] pub struct NodeConstraint { x: u64 }
@file shex_ast/src/ir/shape_expr.rs
@type enum ShapeExpr
#[verifier::external_body] pub struct Node { x: u64 }
pub type Pair = (Node, ShapeLabelIdx);
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for Node { #[verifier::external_body] fn dup(&self) -> (r: Node) { unimplemented!() } }
impl Dup for Pair { #[verifier::external_body] fn dup(&self) -> (r: Pair) { unimplemented!() } }
impl Dup for VErr { #[verifier::external_body] fn dup(&self) -> (r: VErr) { unimplemented!() } }
pub enum Either<A, B> { Left(A), Right(B) }
impl<A, B> Either<A, B> {
    pub fn is_right(&self) -> (r: bool) ensures r == (self is Right) { match self { Either::Right(_) => true, _ => false } }
    pub fn is_left(&self) -> (r: bool) ensures r == (self is Left) { match self { Either::Left(_) => true, _ => false } }
    #[verifier::external_body] pub fn dup(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn left(self) -> (r: Option<A>) ensures r is Some == (self is Left) { match self { Either::Left(a) => Some(a), _ => None } }
}
pub type ValidationResult = Either<Vec<VErr>, Vec<Reason>>;
// sets of pairs
#[verifier::external_body] pub struct Pairs { x: u64 }
impl View for Pairs { type V = ISet<Pair>; uninterp spec fn view(&self) -> ISet<Pair>; }
pub open spec fn lists(s: ISet<Pair>, v: Seq<Pair>) -> bool { forall|p: Pair| #[trigger] s.contains(p) <==> v.contains(p) }
pub open spec fn refs_of(v: Seq<&Pair>) -> Seq<Pair> { v.map_values(|p: &Pair| *p) }
impl Pairs {
    #[verifier::external_body] pub fn new() -> (r: Pairs) ensures r@ == ISet::<Pair>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, p: &Pair) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: Pair) -> (r: bool) ensures final(self)@ == old(self)@.insert(p) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<Pair>) ensures lists(self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn difference<'a>(&'a self, o: &'a Pairs) -> (r: Vec<&'a Pair>) ensures lists(self@.difference(o@), refs_of(r@)) { unimplemented!() }
}
// results of earlier proofs
#[verifier::external_body] pub struct Memo { x: u64 }
impl View for Memo { type V = IMap<Pair, ValidationResult>; uninterp spec fn view(&self) -> IMap<Pair, ValidationResult>; }
impl Memo {
    #[verifier::external_body] pub fn new() -> (r: Memo) ensures r@ == IMap::<Pair, ValidationResult>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &Pair) -> (r: Option<&ValidationResult>) ensures r is Some <==> self@.dom().contains(*p), r matches Some(x) ==> *x == self@[*p] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: Pair, v: ValidationResult) -> (r: Option<ValidationResult>) ensures final(self)@ == old(self)@.insert(p, v) { unimplemented!() }
}
// references of a shape expression: trusted
#[derive(PartialEq, Eq)] #[verifier::external_body] pub struct Pred { x: u64 }
impl Dup for Pred { #[verifier::external_body] fn dup(&self) -> (r: Pred) { unimplemented!() } }
#[verifier::external_body] pub struct RefMap { x: u64 }
impl View for RefMap { type V = IMap<Pred, Vec<ShapeLabelIdx>>; uninterp spec fn view(&self) -> IMap<Pred, Vec<ShapeLabelIdx>>; }
impl RefMap {
    #[verifier::external_body] pub fn vx_keys(&self) -> (r: Vec<Pred>) ensures forall|p: Pred| #[trigger] self@.dom().contains(p) <==> r@.contains(p) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &Pred) -> (r: Option<&Vec<ShapeLabelIdx>>) ensures r is Some <==> self@.dom().contains(*p), r matches Some(x) ==> *x == self@[*p] { unimplemented!() }
}
/// the shapes that a shape expression mentions outside of triple constraints
pub open spec fn drefs(e: ShapeExpr) -> Seq<ShapeLabelIdx> {
    match e { ShapeExpr::ShapeOr { exprs } => exprs@, ShapeExpr::ShapeAnd { exprs } => exprs@, ShapeExpr::ShapeNot { expr } => seq![expr], ShapeExpr::Ref { idx } => seq![idx], _ => seq![] }
}
pub uninterp spec fn refs(e: ShapeExpr, c: SchemaIR) -> IMap<Pred, Vec<ShapeLabelIdx>>;
/// m is a neighbour of n by that predicate (proved of neighs in unit S08)
pub uninterp spec fn arc(g: Rdf, n: Node, p: Pred, m: Node) -> bool;
impl ShapeExpr {
    #[verifier::external_body] pub fn references(&self, c: &SchemaIR) -> (r: RefMap) ensures r@ == refs(*self, *c) { unimplemented!() }
}
@fn ShapeExpr::direct_references r
    ensures r@ =~= drefs(*self),
@endfn
@file shex_validation/src/ref_typing.rs
pub struct RefTyping { pub passed: Pairs }
impl View for RefTyping { type V = ISet<Pair>; open spec fn view(&self) -> ISet<Pair> { self.passed@ } }
impl RefTyping {
    #[verifier::external_body] pub fn new() -> (r: RefTyping) ensures r@ == ISet::<Pair>::empty() { unimplemented!() }
    /// only the messages of failures
    #[verifier::external_body] pub fn insert_failed(&mut self, n: Node, i: ShapeLabelIdx, e: Vec<VErr>) ensures final(self)@ == old(self)@ { unimplemented!() }
}
@fn RefTyping::insert_passed
    ensures final(self)@ == old(self)@.insert(($1, $2)),
@endfn

// ---- the meaning: greatest fixed points by strata ----
/// the shape of the pair holds of its node when exactly the pairs of x are assumed (unit S08 proves what check_node_shape_expr computes)
pub uninterp spec fn ck(c: SchemaIR, g: Rdf, x: ISet<Pair>, p: Pair) -> bool;
/// the pairs on which that depends
pub open spec fn deps(c: SchemaIR, g: Rdf, p: Pair) -> ISet<Pair> { ISet::new(|q: Pair| info(c, p.1) is Some && (by_name(info(c, p.1)->0.e(), p, q) || by_arc(info(c, p.1)->0.e(), c, g, p, q))) }
/// the same node with a shape that is mentioned outside of triple constraints
pub open spec fn by_name(e: ShapeExpr, p: Pair, q: Pair) -> bool { q.0 == p.0 && drefs(e).contains(q.1) }
/// a neighbour with a shape that is mentioned by a triple constraint of that predicate
pub open spec fn by_arc(e: ShapeExpr, c: SchemaIR, g: Rdf, p: Pair, q: Pair) -> bool { exists|k: Pred| #[trigger] arc(g, p.0, k, q.0) && refs(e, c).dom().contains(k) && refs(e, c)[k]@.contains(q.1) }
/// a stratification of the schema
pub uninterp spec fn st(c: SchemaIR, p: Pair) -> nat;
/// pairs depend on nothing else and on no higher stratum, and monotonically on their own (references under negation go to lower strata)
pub open spec fn stratified(c: SchemaIR, g: Rdf) -> bool {
    &&& forall|p: Pair, q: Pair| #[trigger] deps(c, g, p).contains(q) ==> st(c, q) <= st(c, p)
    &&& forall|x: ISet<Pair>, y: ISet<Pair>, p: Pair| (forall|q: Pair| deps(c, g, p).contains(q) ==> (x.contains(q) ==> y.contains(q)) && (st(c, q) < st(c, p) ==> (y.contains(q) ==> x.contains(q)))) && #[trigger] ck(c, g, x, p) ==> #[trigger] ck(c, g, y, p)
}
/// x is supported: all of one stratum, each member either assumed (h) or justified by x and the typing of the lower strata
pub open spec fn supported(c: SchemaIR, g: Rdf, low: ISet<Pair>, h: ISet<Pair>, i: nat, x: ISet<Pair>) -> bool {
    forall|p: Pair| #[trigger] x.contains(p) ==> st(c, p) == i && (h.contains(p) || ck(c, g, low.union(x), p))
}
pub open spec fn in_some(c: SchemaIR, g: Rdf, low: ISet<Pair>, h: ISet<Pair>, i: nat, p: Pair) -> bool { exists|x: ISet<Pair>| x.contains(p) && #[trigger] supported(c, g, low, h, i, x) }
/// the greatest typing
pub open spec fn typed(c: SchemaIR, g: Rdf, p: Pair) -> bool decreases st(c, p), 1int { in_some(c, g, below(c, g, st(c, p)), ISet::empty(), st(c, p), p) }
pub open spec fn below(c: SchemaIR, g: Rdf, i: nat) -> ISet<Pair> decreases i, 0int { ISet::new(|q: Pair| st(c, q) < i && typed(c, g, q)) }
/// the greatest typing when the pairs of h are taken for granted
pub open spec fn holds(c: SchemaIR, g: Rdf, h: ISet<Pair>, p: Pair) -> bool { in_some(c, g, below(c, g, st(c, p)), h, st(c, p), p) }
pub proof fn lemma_typed(c: SchemaIR, g: Rdf, p: Pair) ensures typed(c, g, p) == holds(c, g, ISet::empty(), p)
{}
pub open spec fn gset(c: SchemaIR, g: Rdf, h: ISet<Pair>, i: nat) -> ISet<Pair> { ISet::new(|q: Pair| st(c, q) == i && holds(c, g, h, q)) }
/// no member of h is below stratum i
pub open spec fn above(c: SchemaIR, h: ISet<Pair>, i: nat) -> bool { forall|q: Pair| #[trigger] h.contains(q) ==> i <= st(c, q) }
pub proof fn lemma_gset(c: SchemaIR, g: Rdf, h: ISet<Pair>, i: nat) requires stratified(c, g) ensures supported(c, g, below(c, g, i), h, i, gset(c, g, h, i))
{
    let l = below(c, g, i); let z = gset(c, g, h, i);
    assert forall|p: Pair| #[trigger] z.contains(p) implies st(c, p) == i && (h.contains(p) || ck(c, g, l.union(z), p)) by {
        let x = choose|x: ISet<Pair>| x.contains(p) && #[trigger] supported(c, g, l, h, i, x);
        assert forall|q: Pair| x.contains(q) implies z.contains(q) by { assert(supported(c, g, l, h, i, x)); assert(in_some(c, g, l, h, i, q)); }
        if !h.contains(p) { assert(ck(c, g, l.union(x), p)); assert(ck(c, g, l.union(z), p)); }
    }
}
/// assuming the pair itself does not change whether it holds, and then one step decides it (reduction of a greatest fixed point)
pub proof fn lemma_reduction(c: SchemaIR, g: Rdf, h: ISet<Pair>, a: Pair)
    requires stratified(c, g), !h.contains(a),
    ensures holds(c, g, h, a) <==> ck(c, g, below(c, g, st(c, a)).union(gset(c, g, h.insert(a), st(c, a))), a),
{
    let i = st(c, a); let l = below(c, g, i); let k = h.insert(a); let z = gset(c, g, k, i);
    if holds(c, g, h, a) {
        let x = choose|x: ISet<Pair>| x.contains(a) && #[trigger] supported(c, g, l, h, i, x);
        assert(supported(c, g, l, k, i, x));
        assert forall|q: Pair| x.contains(q) implies z.contains(q) by { assert(in_some(c, g, l, k, i, q)); }
        assert(ck(c, g, l.union(x), a)); assert(ck(c, g, l.union(z), a));
    }
    if ck(c, g, l.union(z), a) {
        lemma_gset(c, g, k, i);
        assert(z.contains(a)) by { let x = ISet::<Pair>::empty().insert(a); assert(supported(c, g, l, k, i, x)); assert(in_some(c, g, l, k, i, a)); }
        assert(supported(c, g, l, h, i, z));
        assert(in_some(c, g, l, h, i, a));
    }
}
/// a typing that agrees on the dependencies decides the same
pub proof fn lemma_local(c: SchemaIR, g: Rdf, x: ISet<Pair>, y: ISet<Pair>, p: Pair)
    requires stratified(c, g), forall|q: Pair| #[trigger] deps(c, g, p).contains(q) ==> x.contains(q) == y.contains(q),
    ensures ck(c, g, x, p) == ck(c, g, y, p),
{
    assert(ck(c, g, x, p) ==> ck(c, g, y, p)); assert(ck(c, g, y, p) ==> ck(c, g, x, p));
}
/// d contains what its members depend on
pub open spec fn closed(c: SchemaIR, g: Rdf, d: ISet<Pair>) -> bool { forall|p: Pair, q: Pair| d.contains(p) && #[trigger] deps(c, g, p).contains(q) ==> d.contains(q) }
/// assumptions that a pair does not depend on, even indirectly, change nothing
pub proof fn lemma_untouched(c: SchemaIR, g: Rdf, h: ISet<Pair>, d: ISet<Pair>, a: Pair)
    requires stratified(c, g), closed(c, g, d), d.contains(a), forall|q: Pair| #[trigger] d.contains(q) ==> !h.contains(q),
    ensures holds(c, g, h, a) == typed(c, g, a),
{
    lemma_typed(c, g, a);
    let i = st(c, a); let l = below(c, g, i); let e = ISet::<Pair>::empty();
    if holds(c, g, h, a) {
        let x = choose|x: ISet<Pair>| x.contains(a) && #[trigger] supported(c, g, l, h, i, x);
        let y = x.intersect(d);
        assert forall|p: Pair| #[trigger] y.contains(p) implies st(c, p) == i && (e.contains(p) || ck(c, g, l.union(y), p)) by {
            assert(x.contains(p)); assert(ck(c, g, l.union(x), p));
            lemma_local(c, g, l.union(x), l.union(y), p);
        }
        assert(supported(c, g, l, e, i, y)); assert(in_some(c, g, l, e, i, a));
    }
    if holds(c, g, e, a) {
        let x = choose|x: ISet<Pair>| x.contains(a) && #[trigger] supported(c, g, l, e, i, x);
        assert(supported(c, g, l, h, i, x)); assert(in_some(c, g, l, h, i, a));
    }
}
/// assumptions of higher strata change nothing
pub proof fn lemma_higher(c: SchemaIR, g: Rdf, h: ISet<Pair>, a: Pair)
    requires forall|q: Pair| #[trigger] h.contains(q) ==> st(c, q) > st(c, a),
    ensures holds(c, g, h, a) == typed(c, g, a),
{
    lemma_typed(c, g, a);
    let i = st(c, a); let l = below(c, g, i); let e = ISet::<Pair>::empty();
    if holds(c, g, h, a) { let x = choose|x: ISet<Pair>| x.contains(a) && #[trigger] supported(c, g, l, h, i, x); assert(supported(c, g, l, e, i, x)); assert(in_some(c, g, l, e, i, a)); }
    if holds(c, g, e, a) { let x = choose|x: ISet<Pair>| x.contains(a) && #[trigger] supported(c, g, l, e, i, x); assert(supported(c, g, l, h, i, x)); assert(in_some(c, g, l, h, i, a)); }
}

// ---- the validator ----
#[verifier::external_body] pub struct ShapeInfo { x: u64 }
impl ShapeInfo { pub uninterp spec fn e(&self) -> ShapeExpr; #[verifier::external_body] pub fn expr(&self) -> (r: &ShapeExpr) ensures *r == self.e() { unimplemented!() } }
pub uninterp spec fn info(c: SchemaIR, i: ShapeLabelIdx) -> Option<ShapeInfo>;
/// no shape is abstract or extended by another one
pub uninterp spec fn plain(c: SchemaIR) -> bool;
impl SchemaIR {
    #[verifier::external_body] pub fn find_shape_idx(&self, i: &ShapeLabelIdx) -> (r: Option<&ShapeInfo>) ensures (match r { Some(x) => Some(*x), None => None }) == info(*self, *i) { unimplemented!() }
    #[verifier::external_body] pub fn is_abstract(&self, i: &ShapeLabelIdx) -> (r: bool) ensures plain(*self) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn descendants(&self, i: &ShapeLabelIdx) -> (r: Vec<ShapeLabelIdx>) ensures plain(*self) ==> r@.len() == 0 { unimplemented!() }
}
@file shex_validation/src/atom.rs
@erase-path todo!() vx_unreachable()
pub enum Atom { Pos(Pair), Neg(Pair) }
impl Dup for Atom { #[verifier::external_body] fn dup(&self) -> (r: Atom) { unimplemented!() } }
pub open spec fn flip(a: Atom) -> Atom { match a { Atom::Pos(p) => Atom::Neg(p), Atom::Neg(p) => Atom::Pos(p) } }
@fn Atom::negated r
    ensures r == flip(*self),
@ret Atom
@impl impl Atom
@endfn
@fn Atom::pos r
    ensures r == Atom::Pos(*$1),
@ret Atom
@impl impl Atom
@argty 1 &Pair
@endfn
// insertion-ordered sets of atoms: trusted
#[verifier::external_body] pub struct IndexSet { x: u64 }
impl View for IndexSet { type V = ISet<Atom>; uninterp spec fn view(&self) -> ISet<Atom>; }
impl IndexSet {
    #[verifier::external_body] pub fn insert(&mut self, a: Atom) -> (r: bool) ensures final(self)@ == old(self)@.insert(a) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: IndexSet) ensures r@ == ISet::<Atom>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<Atom>) ensures forall|a: Atom| #[trigger] self@.contains(a) <==> r@.contains(a) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<Atom>) ensures r is None ==> old(self)@ == ISet::<Atom>::empty() && final(self)@ == old(self)@, r matches Some(a) ==> old(self)@.contains(a) && final(self)@ == old(self)@.remove(a) { unimplemented!() }
}
impl Dup for IndexSet { #[verifier::external_body] fn dup(&self) -> (r: IndexSet) { unimplemented!() } }
// start actions
#[verifier::external_body] pub struct SemAct { x: u64 }
pub uninterp spec fn starts(c: SchemaIR, p: Pair) -> bool;
#[verifier::external_body] pub fn check_start_acts(a: &SemAct, n: &Node, i: &ShapeLabelIdx, c: &SchemaIR) -> (r: Result<bool, VErr>) ensures r is Ok ==> r->Ok_0 == starts(*c, (*n, *i)) { unimplemented!() }
impl SchemaIR { #[verifier::external_body] pub fn start_acts(&self) -> (r: &SemAct) { unimplemented!() } }
@file shex_validation/src/engine.rs
@type struct Engine
impl Engine {
    // the messages of an answer: trusted to touch nothing else
    #[verifier::external_body] pub fn add_reasons(&mut self, p: Pair, r: Vec<Reason>) ensures final(self).same(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn add_errors(&mut self, p: Pair, r: Vec<VErr>) ensures final(self).same(old(self)) { unimplemented!() }
    pub open spec fn same(&self, o: &Engine) -> bool { self.typing@ == o.typing@ && self.kept(o) }
    pub open spec fn kept(&self, o: &Engine) -> bool { self.checked@ == o.checked@ && self.pending@ == o.pending@ }
    #[verifier::external_body] pub fn neighs(&self, node: &Node, preds: Vec<Pred>, rdf: &Rdf) -> (r: Result<(Vec<(Pred, Node)>, Vec<Pred>), VErr>)
        ensures r is Ok ==> forall|k: Pred, m: Node| #[trigger] r->Ok_0.0@.contains((k, m)) <==> preds@.contains(k) && arc(*rdf, *node, k, m) { unimplemented!() }
    #[verifier::external_body] pub fn check_node_shape_expr(&self, idx: &ShapeLabelIdx, node: &Node, se: &ShapeExpr, schema: &SchemaIR, rdf: &Rdf, typing: &mut RefTyping) -> (r: Result<ValidationResult, VErr>)
        requires info(*schema, *idx) matches Some(i) && i.e() == *se,
        ensures final(typing)@ == old(typing)@, r is Ok ==> (r->Ok_0 is Right <==> ck(*schema, *rdf, old(typing)@, (*node, *idx))) { unimplemented!() }
}
pub open spec fn hset(h: Seq<Pair>) -> ISet<Pair> { ISet::new(|p: Pair| h.contains(p)) }
/// the results kept are those of the greatest typing, with all they depend on, none of which is still being proved
pub open spec fn sound(m: IMap<Pair, ValidationResult>, c: SchemaIR, g: Rdf, h: ISet<Pair>) -> bool {
    &&& forall|p: Pair| #[trigger] m.dom().contains(p) ==> (m[p] is Right <==> typed(c, g, p)) && !h.contains(p)
    &&& closed(c, g, m.dom())
}
pub open spec fn hit(c: Seq<(Pred, Node)>, j: int, m: IMap<Pred, Vec<ShapeLabelIdx>>, q: Pair) -> bool { c[j].1 == q.0 && m.dom().contains(c[j].0) && m[c[j].0]@.contains(q.1) }
@fn Engine::dep r
    ensures r is Ok ==> r->Ok_0@ == deps(*$3, *$4, (*$1, *$2)),
@ret Result<Pairs, VErr>
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|q: Pair| #[trigger] dep@.contains(q) <==> q.0 == *node && exists|j: int| 0 <= j < $i && $c@[j] == q.1,
@loopafter 0
proof { assert forall|q: Pair| #[trigger] dep@.contains(q) <==> by_name(*se, (*node, *idx), q) by {} }
@afterlet references
let ghost dep1 = dep@;
@loop 1
    invariant $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == $c@[j],
@loopafter 1
proof { assert($acc@ =~= $c@); }
@loop 2
    invariant forall|q: Pair| #[trigger] dep@.contains(q) <==> dep1.contains(q) || exists|j: int| 0 <= j < $i && hit($c@, j, references@, q),
@loopstart 2
let ghost dep2 = dep@; let ghost j0 = $i as int;
@loopend 2
proof {
    assert forall|q: Pair| #[trigger] dep@.contains(q) <==> dep2.contains(q) || hit($c@, j0, references@, q) by { }
    assert forall|q: Pair| #[trigger] dep@.contains(q) <==> dep1.contains(q) || exists|j: int| 0 <= j < $i && hit($c@, j, references@, q) by {
        if dep2.contains(q) && !dep1.contains(q) { let j = choose|j: int| 0 <= j < j0 && hit($c@, j, references@, q); assert(0 <= j < $i); }
    }
}
@loop 3
    invariant forall|q: Pair| #[trigger] dep@.contains(q) <==> dep2.contains(q) || (q.0 == *neigh_node && exists|k: int| 0 <= k < $i && #[trigger] $c@[k] == q.1),
@loopafter 3
proof {
    assert(j0 >= 0 && neighs@[j0].0 == *pred && neighs@[j0].1 == *neigh_node && references@.dom().contains(*pred) && references@[*pred] == *$c);
    assert forall|q: Pair| #[trigger] dep@.contains(q) <==> dep2.contains(q) || hit(neighs@, j0, references@, q) by {
        if hit(neighs@, j0, references@, q) { let k = choose|k: int| 0 <= k < $c@.len() && $c@[k] == q.1; assert($c@[k] == q.1); }
    }
}
@loopafter 2
proof {
    assert forall|q: Pair| #[trigger] dep@.contains(q) <==> deps(*schema, *rdf, (*node, *idx)).contains(q) by {
        if by_arc(*se, *schema, *rdf, (*node, *idx), q) {
            let k = choose|k: Pred| #[trigger] arc(*rdf, *node, k, q.0) && refs(*se, *schema).dom().contains(k) && refs(*se, *schema)[k]@.contains(q.1);
            assert($c@.contains((k, q.0)));
            let j = choose|j: int| 0 <= j < $c@.len() && $c@[j] == (k, q.0);
            assert(hit($c@, j, references@, q));
        }
        if exists|j: int| 0 <= j < $c@.len() && hit($c@, j, references@, q) {
            let j = choose|j: int| 0 <= j < $c@.len() && hit($c@, j, references@, q);
            assert($c@.contains(($c@[j].0, $c@[j].1))); assert(arc(*rdf, *node, $c@[j].0, q.0));
        }
    }
    assert(dep@ =~= deps(*schema, *rdf, (*node, *idx)));
}
@endfn
@fn Engine::check_descendants r
    requires sound(old(self).typing@, *$4, *$5, hset(old($6)@)),
    ensures final(self).kept(old(self)), $3@.len() == 0 ==> sound(final(self).typing@, *$4, *$5, hset(old($6)@)),
@ret Result<ValidationResult, VErr>
@attrs #[verifier::external_body]
@endfn
@fn Engine::check_node_idx r
    requires plain(*$3),
    ensures final($5)@ == old($5)@, *final(self) == *old(self), final($6)@ == old($6)@, r is Ok ==> (r->Ok_0 is Right <==> ck(*$3, *$4, old($5)@, (*$1, *$2))),
@ret Result<ValidationResult, VErr>
@endfn
@fn Engine::prove r
    requires plain(*$4), stratified(*$4, *$5), sound(old(self).typing@, *$4, *$5, hset(old($3)@)), !old($3)@.contains((*$1, *$2)), above(*$4, hset(old($3)@), st(*$4, (*$1, *$2))),
    ensures final(self).kept(old(self)), sound(final(self).typing@, *$4, *$5, hset(old($3)@)), r is Ok ==> final($3)@ == old($3)@ && (r->Ok_0 is Right <==> holds(*$4, *$5, hset(old($3)@), (*$1, *$2))),
        r is Ok && !final(self).hyp_touched ==> !old(self).hyp_touched && final(self).typing@.dom().contains((*$1, *$2)),
        forall|p: Pair| #[trigger] old(self).typing@.dom().contains(p) ==> final(self).typing@.dom().contains(p),
@ret Result<ValidationResult, VErr>
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@start
proof { if self.typing@.dom().contains((*node, *label)) { lemma_untouched(*schema, *rdf, hset(hyp@), self.typing@.dom(), (*node, *label)); } }
@collect 0 Pairs insert
@loop 0
    invariant forall|p: Pair| #[trigger] $acc@.contains(p) <==> exists|j: int| 0 <= j < $i && hyp@[j] == p,
@loop 1
    invariant $acc <==> exists|j: int| 0 <= j < $i && hyp_as_set@.contains(#[trigger] $c@[j]),
@loop 2
    invariant $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == *$c@[j],
@loopafter 2
proof {
    let w = refs_of($c@);
    assert forall|j: int| 0 <= j < $acc@.len() implies candidates@.difference(hyp_as_set@).contains(#[trigger] $acc@[j]) by { assert(w[j] == $acc@[j]); assert(w.contains(w[j])); }
    assert forall|p: Pair| candidates@.difference(hyp_as_set@).contains(p) implies #[trigger] $acc@.contains(p) by { assert(w.contains(p)); let j = choose|j: int| 0 <= j < w.len() && w[j] == p; assert($acc@[j] == p); }
}
@afterlet cleaned_candidates
let ghost hyp1 = hyp@;
proof {
    assert(hset(hyp1) =~= hset(old(hyp)@).insert(key)) by { assert(hyp1 == old(hyp)@.push(key)); assert(hyp1[hyp1.len() - 1] == key); assert forall|p: Pair| old(hyp)@.contains(p) implies hyp1.contains(p) by { let j = choose|j: int| 0 <= j < old(hyp)@.len() && old(hyp)@[j] == p; assert(hyp1[j] == p); } }
    assert(hyp_as_set@ =~= hset(hyp1));
}
@loop 3
    invariant hyp@ == hyp1, self.kept(old(self)), sound(self.typing@, *schema, *rdf, hset(hyp1)),
        forall|p: Pair| #[trigger] old(self).typing@.dom().contains(p) ==> self.typing@.dom().contains(p),
        forall|p: Pair| #[trigger] typing@.contains(p) ==> exists|j: int| 0 <= j < $i && $c@[j] == p,
        forall|j: int| 0 <= j < $i ==> (typing@.contains(#[trigger] $c@[j]) <==> holds(*schema, *rdf, hset(hyp1), $c@[j])),
        !self.hyp_touched ==> forall|q: Pair| #[trigger] candidates@.contains(q) ==> !hyp1.contains(q),
        !self.hyp_touched ==> forall|j: int| 0 <= j < $i ==> self.typing@.dom().contains(#[trigger] $c@[j]),
@loopbefore 4
let ghost typing1 = typing@;
@loop 4
    invariant forall|p: Pair| #[trigger] typing@.contains(p) <==> typing1.contains(p) || exists|j: int| 0 <= j < $i && $c@[j] == p,
@loopafter 4
proof {
    let i = st(*schema, key); let h = hset(old(hyp)@); let k = hset(hyp1);
    let x = below(*schema, *rdf, i).union(gset(*schema, *rdf, k, i));
    assert forall|q: Pair| #[trigger] deps(*schema, *rdf, key).contains(q) implies typing@.contains(q) == x.contains(q) by {
        assert(st(*schema, q) <= i);
        if hyp1.contains(q) {
            assert(k.contains(q));
            let y = ISet::<Pair>::empty().insert(q);
            assert(supported(*schema, *rdf, below(*schema, *rdf, i), k, i, y));
            assert(in_some(*schema, *rdf, below(*schema, *rdf, i), k, i, q));
        } else {
            assert(candidates@.difference(hyp_as_set@).contains(q)); assert(cleaned_candidates@.contains(q));
            if st(*schema, q) < i { lemma_higher(*schema, *rdf, k, q); }
        }
    }
    lemma_local(*schema, *rdf, typing@, x, key);
    lemma_reduction(*schema, *rdf, h, key);
}
@afterlet mine
proof {
    if !mine {
        let d = self.typing@.dom().insert(key);
        assert forall|p: Pair, q: Pair| d.contains(p) && #[trigger] deps(*schema, *rdf, p).contains(q) implies d.contains(q) by {
            if p == key { assert(!hyp1.contains(q)); assert(candidates@.difference(hyp_as_set@).contains(q)); assert(cleaned_candidates@.contains(q)); }
        }
        lemma_untouched(*schema, *rdf, hset(old(hyp)@), d, key);
    }
}
@endfn
// ---- answering all queries ----
pub open spec fn pair_of(a: Atom) -> Pair { match a { Atom::Pos(p) => p, Atom::Neg(p) => p } }
pub open spec fn known(c: SchemaIR, s: ISet<Atom>) -> bool { forall|a: Atom| #[trigger] s.contains(a) ==> info(c, idx_of(a)) is Some }
pub open spec fn idx_of(a: Atom) -> ShapeLabelIdx { match a { Atom::Pos(p) => p.1, Atom::Neg(p) => p.1 } }
/// the answer to a query
pub open spec fn conforms(c: SchemaIR, g: Rdf, p: Pair) -> bool { starts(c, p) && typed(c, g, p) }
pub open spec fn answered(done: ISet<Atom>, c: SchemaIR, g: Rdf, p: Pair) -> bool { done.contains(if conforms(c, g, p) { Atom::Pos(p) } else { Atom::Neg(p) }) }
/// every answer given is right
pub open spec fn right(done: ISet<Atom>, c: SchemaIR, g: Rdf) -> bool { forall|a: Atom| #[trigger] done.contains(a) ==> match a { Atom::Pos(p) => conforms(c, g, p), Atom::Neg(p) => !conforms(c, g, p) } }
@fn Engine::add_checked_pos
    requires $1 is Pos,
    ensures final(self).typing@ == old(self).typing@, final(self).checked@ == old(self).checked@.insert($1), final(self).pending@ == old(self).pending@,
@endfn
@fn Engine::add_checked_neg
    ensures final(self).typing@ == old(self).typing@, final(self).checked@ == old(self).checked@.insert(match $1 { Atom::Pos(p) => Atom::Neg(p), a => a }), final(self).pending@ == old(self).pending@,
@endfn
@fn Engine::add_pending
    ensures final(self).typing@ == old(self).typing@, final(self).checked@ == old(self).checked@, final(self).pending@ == old(self).pending@.insert(Atom::Pos(($1, $2))),
@endfn
@fn Engine::pop_pending r
    ensures final(self).typing@ == old(self).typing@, final(self).checked@ == old(self).checked@, r is None ==> old(self).pending@ == ISet::<Atom>::empty() && final(self).pending@ == old(self).pending@, r matches Some(a) ==> old(self).pending@.contains(a) && final(self).pending@ == old(self).pending@.remove(a),
@endfn
@fn Engine::checked r
    ensures r@ == self.checked@,
@endfn
@fn Engine::pending r
    ensures r@ == self.pending@,
@endfn
@fn Engine::validate_pending r
    requires plain(*$2), stratified(*$2, *$1), sound(old(self).typing@, *$2, *$1, ISet::empty()), forall|a: Atom| #[trigger] old(self).pending@.contains(a) ==> a is Pos, known(*$2, old(self).pending@), known(*$2, old(self).checked@), right(old(self).checked@, *$2, *$1),
    ensures r is Ok ==> (forall|a: Atom| #[trigger] final(self).checked@.contains(a) ==> old(self).checked@.contains(a) || old(self).pending@.contains(Atom::Pos(pair_of(a)))) && known(*$2, final(self).checked@) && (forall|p: Pair| #[trigger] old(self).pending@.contains(Atom::Pos(p)) ==> answered(final(self).checked@, *$2, *$1, p)) && right(final(self).checked@, *$2, *$1) && sound(final(self).typing@, *$2, *$1, ISet::empty()) && final(self).pending@ == ISet::<Atom>::empty(),
@ret Result<(), VErr>
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@loop 0
    invariant sound(self.typing@, *schema, *rdf, ISet::empty()), known(*schema, self.pending@), known(*schema, self.checked@), right(self.checked@, *schema, *rdf), forall|a: Atom| #[trigger] self.pending@.contains(a) ==> a is Pos,
        forall|p: Pair| #[trigger] old(self).pending@.contains(Atom::Pos(p)) ==> self.pending@.contains(Atom::Pos(p)) || answered(self.checked@, *schema, *rdf, p),
        forall|a: Atom| #[trigger] self.checked@.contains(a) ==> old(self).checked@.contains(a) || old(self).pending@.contains(Atom::Pos(pair_of(a))),
        forall|a: Atom| #[trigger] self.pending@.contains(a) ==> old(self).pending@.contains(a),
@afterlet hyp
proof { assert(hset(hyp@) =~= ISet::empty()); lemma_typed(*schema, *rdf, (node, idx)); }
@endfn
@fn Engine::new r
    ensures r.typing@ == IMap::<Pair, ValidationResult>::empty(), r.checked@ == ISet::<Atom>::empty(), r.pending@ == ISet::<Atom>::empty(),
@endfn
// ---- reporting the answers ----
@erase-method map_err self
#[verifier::external_body] pub struct Message { x: u64 }
#[verifier::external_body] pub fn json_reasons(r: &Vec<Reason>) -> Result<Message, VErr> { unimplemented!() }
#[verifier::external_body] pub fn json_errors(r: &Vec<VErr>) -> Result<Message, VErr> { unimplemented!() }
#[verifier::external_body] pub fn show_reasons(r: &Vec<Reason>, p: &PrefixMap, c: &SchemaIR, w: usize) -> Result<Message, VErr> { unimplemented!() }
#[verifier::external_body] pub fn show_errors(r: &Vec<VErr>, p: &PrefixMap, c: &SchemaIR, w: usize) -> Result<Message, VErr> { unimplemented!() }
#[verifier::external_body] pub struct PrefixMap { x: u64 }
impl PrefixMap { #[verifier::external_body] pub fn dup(&self) -> PrefixMap { unimplemented!() } #[verifier::external_body] pub fn default() -> PrefixMap { unimplemented!() } }
#[verifier::external_body] pub struct ShapeLabel { x: u64 }
impl Dup for ShapeLabel { #[verifier::external_body] fn dup(&self) -> (r: ShapeLabel) { unimplemented!() } }
pub uninterp spec fn label_of(i: ShapeInfo) -> Option<ShapeLabel>;
impl ShapeInfo { #[verifier::external_body] pub fn label(&self) -> (r: Option<&ShapeLabel>) ensures (match r { Some(x) => Some(*x), None => None }) == label_of(*self) { unimplemented!() } }
impl SchemaIR { #[verifier::external_body] pub fn prefixmap(&self) -> PrefixMap { unimplemented!() } }
impl Engine {
    #[verifier::external_body] pub fn find_reasons(&self, p: &Pair) -> Vec<Reason> { unimplemented!() }
    #[verifier::external_body] pub fn find_errors(&self, p: &Pair) -> Vec<VErr> { unimplemented!() }
}
pub enum Verdict { Yes, No, Open }
#[verifier::external_body] pub struct ValidationStatus { x: u64 }
pub uninterp spec fn verdict(s: ValidationStatus) -> Verdict;
impl ValidationStatus {
    #[verifier::external_body] pub fn conformant(a: Message, b: Message) -> (r: ValidationStatus) ensures verdict(r) is Yes { unimplemented!() }
    #[verifier::external_body] pub fn non_conformant(a: Message, b: Message) -> (r: ValidationStatus) ensures verdict(r) is No { unimplemented!() }
    #[verifier::external_body] pub fn pending() -> (r: ValidationStatus) ensures verdict(r) is Open { unimplemented!() }
}
/// the answers of a result shape map: trusted to record what it is told
#[verifier::external_body] pub struct ResultShapeMap { x: u64 }
impl View for ResultShapeMap { type V = ISet<(Node, ShapeLabel, Verdict)>; uninterp spec fn view(&self) -> ISet<(Node, ShapeLabel, Verdict)>; }
impl ResultShapeMap {
    #[verifier::external_body] pub fn new() -> (r: ResultShapeMap) ensures r@ == ISet::<(Node, ShapeLabel, Verdict)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_nodes_prefixmap(self, p: &PrefixMap) -> (r: ResultShapeMap) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn with_shapes_prefixmap(self, p: &PrefixMap) -> (r: ResultShapeMap) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn add_result(&mut self, n: Node, l: ShapeLabel, s: ValidationStatus) -> (r: Result<(), VErr>) ensures r is Ok ==> final(self)@ == old(self)@.insert((n, l, verdict(s))) { unimplemented!() }
}
/// the line of the report for an atom
pub open spec fn line(c: SchemaIR, a: Atom, open: bool) -> (Node, ShapeLabel, Verdict) {
    match a { Atom::Pos(p) => (p.0, label_of(info(c, p.1)->0)->0, if open { Verdict::Open } else { Verdict::Yes }), Atom::Neg(p) => (p.0, label_of(info(c, p.1)->0)->0, if open { Verdict::Open } else { Verdict::No }) }
}
@file shex_validation/src/atom.rs
@fn Atom::get_value r
    ensures *r == pair_of(*self),
@ret &Pair
@impl impl Atom
@endfn
@file shex_validation/src/validator.rs
@type struct Validator
@fn Validator::get_shape_label r
    requires info(self.schema, *$1) is Some,
    ensures r matches Ok(l) ==> label_of(info(self.schema, *$1)->0) == Some(*l),
@ret Result<&ShapeLabel, VErr>
@endfn
@fn Validator::result_map r
    requires known(self.schema, old($1).checked@), known(self.schema, old($1).pending@),
    ensures *final($1) == *old($1), r matches Ok(m) ==> forall|x: (Node, ShapeLabel, Verdict)| #[trigger] m@.contains(x) <==> (exists|a: Atom| old($1).checked@.contains(a) && x == line(self.schema, a, false)) || exists|a: Atom| old($1).pending@.contains(a) && x == line(self.schema, a, true),
@ret Result<ResultShapeMap, VErr>
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant forall|x: (Node, ShapeLabel, Verdict)| #[trigger] result@.contains(x) <==> exists|j: int| 0 <= j < $i && x == line(self.schema, $c@[j], false),
@loopstart 0
proof { assert($c@.contains($c@[$i as int])); assert(old(engine).checked@.contains($c@[$i as int])); assert(info(self.schema, idx_of($c@[$i as int])) is Some); }
@loopstart 1
proof { assert($c@.contains($c@[$i as int])); assert(engine.pending@.contains($c@[$i as int]));  assert(old(engine).pending@.contains($c@[$i as int])); }
@loop 1
    invariant forall|x: (Node, ShapeLabel, Verdict)| #[trigger] result@.contains(x) <==> result1.contains(x) || exists|j: int| 0 <= j < $i && x == line(self.schema, $c@[j], true),
@loopbefore 1
let ghost result1 = result@;
@endfn
// the shape with a label: trusted
#[verifier::external_body] pub struct ShapeExprLabel { x: u64 }
pub uninterp spec fn expr_label(l: ShapeLabel) -> ShapeExprLabel;
pub uninterp spec fn shape_of(c: SchemaIR, l: ShapeExprLabel) -> Option<ShapeLabelIdx>;
impl ShapeLabel { #[verifier::external_body] pub fn into(&self) -> (r: ShapeExprLabel) ensures r == expr_label(*self) { unimplemented!() } }
impl SchemaIR { #[verifier::external_body] pub fn find_ref(&self, l: &ShapeExprLabel) -> (r: Result<ShapeLabelIdx, VErr>) ensures r matches Ok(i) ==> shape_of(*self, *l) == Some(i) && info(*self, i) is Some, r is Err ==> shape_of(*self, *l) is None { unimplemented!() } }
@fn Validator::get_shape_expr_label r
    ensures r matches Ok(i) ==> shape_of(*$2, *$1) == Some(i) && info(*$2, i) is Some,
@ret Result<ShapeLabelIdx, VErr>
@endfn
@subst-type S Rdf
@fn Validator::validate_node_shape r
    requires plain(*$4), stratified(*$4, *$3), old(self).schema == *$4,
    ensures r matches Ok(m) ==> (shape_of(*$4, expr_label(*$2)) matches Some(i) && forall|x: (Node, ShapeLabel, Verdict)| #[trigger] m@.contains(x) <==> x == (*$1, label_of(info(*$4, i)->0)->0, if conforms(*$4, *$3, (*$1, i)) { Verdict::Yes } else { Verdict::No })),
@ret Result<ResultShapeMap, VErr>
@afterlet idx
let ghost asked = engine.pending@.insert(Atom::Pos((*node, idx)));
@afterlet result
proof {
    let p = (*node, idx);
    assert(asked.contains(Atom::Pos(p)));
    assert(engine.pending@ =~= ISet::empty());
    assert(answered(engine.checked@, *schema, *rdf, p));
    let a = if conforms(*schema, *rdf, p) { Atom::Pos(p) } else { Atom::Neg(p) };
    assert(engine.checked@.contains(a));
    assert forall|b: Atom| #[trigger] engine.checked@.contains(b) implies b == a by { assert(pair_of(b) == p); }
    assert forall|x: (Node, ShapeLabel, Verdict)| #[trigger] result@.contains(x) <==> x == line(*schema, a, false) by { if x == line(*schema, a, false) { assert(engine.checked@.contains(a)); } }
}
@endfn
