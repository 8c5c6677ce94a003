// ---- triple constraints (components), their keys and conditions; distributions of a neighbourhood over them ----
@subst-type Component Key
@subst-type K Pred
@subst-type V Node
@subst-type R ShapeLabelIdx
@subst-type Ctx SemanticActionContext
@subst-type P CondKind
@subst-type IndexSet KeySet
@erase-generics MatchCond Pending RbeError RbeTable RbeCond MatchTableIter IterCartesianProduct EmptyIter Values KeySet IterState
@subst-type Cond MatchCond
@subst-type Expr RbeTable
@erase-path RbeError::* rbe_err()
@drop-ident _phantom
impl Copy for Key {}
pub uninterp spec fn comp(n: nat) -> Key;
#[verifier::external_body] pub proof fn axiom_comp() ensures forall|a: nat, b: nat| #![trigger comp(a), comp(b)] comp(a) == comp(b) ==> a == b {}
@remap-path Key::from Key::vx_from
@remap-path Component::from Key::vx_from
impl Key { #[verifier::external_body] pub fn vx_from(n: usize) -> (r: Key) ensures r == comp(n as nat) { unimplemented!() } }
@file shex_ast/src/pred.rs
#[verifier::external_body] pub struct IriS { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Pred { x: u64 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Pred { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Pred) -> bool { *self == *other } }
impl PartialEq for Pred { #[verifier::external_body] fn eq(&self, other: &Pred) -> (r: bool) { unimplemented!() } }
impl Clone for Pred { #[verifier::external_body] fn clone(&self) -> (r: Pred) ensures r == *self { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Node { x: u64 }
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Node) ensures r == *self { unimplemented!() } }
#[verifier::external_body] #[derive(Copy)] pub struct ShapeLabelIdx { x: u64 }
impl Clone for ShapeLabelIdx { #[verifier::external_body] fn clone(&self) -> (r: ShapeLabelIdx) ensures r == *self { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct SemanticActionContext { x: u64 }
impl Clone for SemanticActionContext { #[verifier::external_body] fn clone(&self) -> (r: SemanticActionContext) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct RbeError { x: u64 }
impl Clone for RbeError { #[verifier::external_body] fn clone(&self) -> (r: RbeError) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn rbe_err() -> RbeError { unimplemented!() }
#[verifier::external_body] pub struct MatchCond { x: u64 }
impl Clone for MatchCond { #[verifier::external_body] fn clone(&self) -> (r: MatchCond) ensures r == *self { unimplemented!() } }
/// the node satisfies the condition, references aside (proved for compiled conditions in unit S06)
pub uninterp spec fn mc_ok(m: MatchCond, n: Node, c: SemanticActionContext) -> bool;
/// shapes the node has to conform to besides
pub uninterp spec fn mc_refs(m: MatchCond, s: ShapeLabelIdx) -> bool;
#[verifier::external_body] pub struct Pending { x: u64 }
impl View for Pending { type V = ISet<(Node, ShapeLabelIdx)>; uninterp spec fn view(&self) -> ISet<(Node, ShapeLabelIdx)>; }
pub open spec fn pend(m: MatchCond, n: Node) -> ISet<(Node, ShapeLabelIdx)> { ISet::new(|p: (Node, ShapeLabelIdx)| p.0 == n && mc_refs(m, p.1)) }
impl MatchCond {
    #[verifier::external_body] pub fn matches(&self, n: &Node, c: &SemanticActionContext) -> (r: Result<Pending, RbeError>)
        ensures r is Ok <==> mc_ok(*self, *n, *c), r is Ok ==> r->Ok_0@ == pend(*self, *n) { unimplemented!() }
}
impl Pending {
    #[verifier::external_body] pub fn empty() -> (r: Pending) ensures r@ == ISet::<(Node, ShapeLabelIdx)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == ISet::<(Node, ShapeLabelIdx)>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn merge(&mut self, o: Pending) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn annotate_key(&mut self, k: &Pred) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn iter_vr(&self) -> (r: Vec<(Node, ShapeLabelIdx, Vec<Pred>)>)
        ensures forall|n: Node, s: ShapeLabelIdx| #[trigger] self@.contains((n, s)) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == n && r@[i].1 == s { unimplemented!() }
}
// ---- ordered maps and sets: trusted contracts ----
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] pub struct IndexMap<A, B> { a: core::marker::PhantomData<A>, b: core::marker::PhantomData<B> }
impl<A, B> View for IndexMap<A, B> { type V = IMap<A, B>; uninterp spec fn view(&self) -> IMap<A, B>; }
impl<A, B> IndexMap<A, B> {
    #[verifier::external_body] pub fn new() -> (r: IndexMap<A, B>) ensures r@ == IMap::<A, B>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &A) -> (r: Option<&B>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: A, v: B) -> (r: Option<B>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// moves the value out, to be put back changed
    #[verifier::external_body] pub fn vx_take(&mut self, k: &A) -> (r: Option<B>) ensures final(self)@ == old(self)@, r is Some <==> old(self)@.dom().contains(*k), r is Some ==> r->Some_0 == old(self)@[*k] { unimplemented!() }
}
pub type HashMap<A, B> = IndexMap<A, B>;
pub uninterp spec fn ks_items(s: ISet<Key>) -> Seq<Key>;
#[verifier::external_body] pub proof fn axiom_items(s: ISet<Key>) ensures forall|k: Key| #[trigger] s.contains(k) <==> ks_items(s).contains(k) {}
impl KeySet {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == ks_items(self@).len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_ordered(&self) -> (r: Vec<Key>) ensures r@ == ks_items(self@) { unimplemented!() }
}
@iter-via components vx_ordered
@file rbe/src/rbe_table.rs
@type struct RbeTable
pub open spec fn tab_keys(t: RbeTable, k: Pred, c: Key) -> bool { t.key_components@.dom().contains(k) && t.key_components@[k]@.contains(c) }
/// every component of the table has its key and condition, and is listed under its key
pub open spec fn tab_ok(t: RbeTable) -> bool {
    (forall|k: Pred, c: Key| #[trigger] tab_keys(t, k, c) <==> t.component_key@.dom().contains(c) && t.component_key@[c] == k)
    && (forall|c: Key| #[trigger] t.component_key@.dom().contains(c) <==> t.component_cond@.dom().contains(c))
    && (forall|n: nat| #[trigger] t.component_key@.dom().contains(comp(n)) <==> n < t.component_counter)
    && (forall|c: Key| #[trigger] t.component_key@.dom().contains(c) ==> exists|n: nat| c == #[trigger] comp(n))
}
impl Clone for RbeTable { #[verifier::external_body] fn clone(&self) -> (r: RbeTable) ensures r == *self { unimplemented!() } }
@fn RbeTable::get_condition r
    ensures r is Some <==> self.component_cond@.dom().contains(*$1), r is Some ==> *r->Some_0 == self.component_cond@[*$1],
@endfn
@fn RbeTable::get_key r
    ensures r is Some <==> self.component_key@.dom().contains(*$1), r is Some ==> *r->Some_0 == self.component_key@[*$1],
@endfn
@fn RbeTable::with_rbe
    ensures final(self).rbe == $1, final(self).key_components == old(self).key_components, final(self).component_cond == old(self).component_cond, final(self).component_key == old(self).component_key, final(self).component_counter == old(self).component_counter, final(self).open == old(self).open,
@endfn
@remap-path RbeStruct::default RbeStruct::vx_default
@remap-path RbeTable::default RbeTable::vx_default
@file rbe/src/rbe_struct.rs
@fn RbeStruct@Default::default r
@rename vx_default
    ensures r.rbe is Empty, rs_ok(r),
@endfn
@file rbe/src/rbe_table.rs
@fn RbeTable@Default::default r
@rename vx_default
    ensures r.component_counter == 0, !r.open, tab_ok(r), r.rbe.rbe is Empty,
@start
    proof { axiom_comp(); }
@endfn
@fn RbeTable::new r
    ensures r.component_counter == 0, !r.open, tab_ok(r), r.rbe.rbe is Empty,
@endfn
@fn RbeTable::add_component r
    requires tab_ok(*old(self)), old(self).component_counter < usize::MAX,
    ensures tab_ok(*final(self)), r == comp(old(self).component_counter as nat), final(self).component_counter == old(self).component_counter + 1,
        final(self).component_cond@ == old(self).component_cond@.insert(r, *$2), final(self).component_key@ == old(self).component_key@.insert(r, $1), final(self).rbe == old(self).rbe, final(self).open == old(self).open,
@start
    let ghost vx_t0 = *self;
    proof { axiom_comp(); }
@leaf
    proof {
        let cn = comp(vx_t0.component_counter as nat);
        assert forall|k: Pred, d: Key| #[trigger] tab_keys(*self, k, d) <==> self.component_key@.dom().contains(d) && self.component_key@[d] == k by {
            assert(tab_keys(vx_t0, k, d) <==> vx_t0.component_key@.dom().contains(d) && vx_t0.component_key@[d] == k);
            assert(!vx_t0.component_key@.dom().contains(cn));
        }
        assert forall|d: Key| #[trigger] self.component_key@.dom().contains(d) implies exists|n: nat| d == #[trigger] comp(n) by { if d != cn { assert(vx_t0.component_key@.dom().contains(d)); } }
    }
@attrs #[verifier::loop_isolation(false)]
@endfn
// ---- the expression of an empty neighbourhood ----
@file rbe/src/rbe_struct.rs
@fn RbeStruct::inner_rbe r
    ensures *r == self.rbe,
@endfn
@fn RbeStruct::nullable r
    requires wf(self.rbe),
    ensures r == nullable(self.rbe),
@endfn
@file rbe/src/rbe_cond.rs
@subst-type NullableResult bool
@type enum RbeCond
pub open spec fn cn(e: RbeCond) -> bool decreases e {
    match e {
        RbeCond::Fail { .. } => false,
        RbeCond::Empty => true,
        RbeCond::Symbol { card, .. } => card.min.value == 0,
        RbeCond::And { exprs } => forall|i: int| 0 <= i < exprs@.len() ==> cn(#[trigger] exprs@[i]),
        RbeCond::Or { exprs } => exists|i: int| 0 <= i < exprs@.len() && cn(#[trigger] exprs@[i]),
        RbeCond::Star { .. } => true,
        RbeCond::Plus { expr } => cn(*expr),
        RbeCond::Repeat { expr, card } => card.min.value == 0 || cn(*expr),
    }
}
pub open spec fn cn_all(v: Seq<RbeCond>) -> bool { forall|i: int| 0 <= i < v.len() ==> cn(#[trigger] v[i]) }
pub open spec fn cn_any(v: Seq<RbeCond>) -> bool { exists|i: int| 0 <= i < v.len() && cn(#[trigger] v[i]) }
pub proof fn lemma_cn_and(e: RbeCond) requires e is And, ensures cn(e) <==> cn_all(e->And_exprs@) { if cn_all(e->And_exprs@) { assert forall|i: int| 0 <= i < e->And_exprs@.len() implies cn(#[trigger] e->And_exprs@[i]) by {} assert(cn(e)); } }
pub proof fn lemma_cn_or(e: RbeCond) requires e is Or, ensures cn(e) <==> cn_any(e->Or_exprs@) { }
impl Clone for RbeCond { #[verifier::external_body] fn clone(&self) -> (r: RbeCond) ensures r == *self { unimplemented!() } }
@fn RbeCond::nullable r
    ensures r == cn(*self),
    decreases *self,
@loop 0
    invariant $acc == (forall|j: int| 0 <= j < $i ==> cn(#[trigger] $c@[j])), *self == (RbeCond::And { exprs: *$c }),
@loop 1
    invariant $acc == (exists|j: int| 0 <= j < $i && cn(#[trigger] $c@[j])), *self == (RbeCond::Or { exprs: *$c }),
@attrs #[verifier::loop_isolation(false)]
@endfn
@file rbe/src/values.rs
@type struct Values
impl Clone for Values { #[verifier::external_body] fn clone(&self) -> (r: Values) ensures r == *self { unimplemented!() } }
@fn Values::is_empty r
    ensures r == (self.values@.len() == 0),
@endfn
impl Values { #[verifier::external_body] pub fn from(v: &Vec<(Pred, Node, SemanticActionContext)>) -> (r: Values) ensures r.values@ == v@ { unimplemented!() } }
@known from
pub type Item = Result<Pending, RbeError>;
@file rbe/src/empty_iter.rs
@type struct EmptyIter
pub open spec fn in_tab(e: Rbe, t: RbeTable) -> bool { forall|k: Key| #[trigger] syms(e, k) ==> t.component_key@.dom().contains(k) }
pub proof fn lemma_in_tab(e: Rbe, t: RbeTable)
    requires in_tab(e, t),
    ensures
        e is And ==> forall|i: int| 0 <= i < e->And_values@.len() ==> in_tab(#[trigger] e->And_values@[i], t),
        e is Or ==> forall|i: int| 0 <= i < e->Or_values@.len() ==> in_tab(#[trigger] e->Or_values@[i], t),
        e is Symbol ==> t.component_key@.dom().contains(e->Symbol_value),
        e is Star ==> in_tab(*e->Star_value, t), e is Plus ==> in_tab(*e->Plus_value, t), e is Repeat ==> in_tab(*e->Repeat_value, t),
{
    match e {
        Rbe::And { values } => { assert forall|i: int| 0 <= i < values@.len() implies in_tab(#[trigger] values@[i], t) by {
            assert forall|k: Key| #[trigger] syms(values@[i], k) implies t.component_key@.dom().contains(k) by { assert(syms(e, k)); } } }
        Rbe::Or { values } => { assert forall|i: int| 0 <= i < values@.len() implies in_tab(#[trigger] values@[i], t) by {
            assert forall|k: Key| #[trigger] syms(values@[i], k) implies t.component_key@.dom().contains(k) by { assert(syms(e, k)); } } }
        Rbe::Symbol { value, card } => { assert(syms(e, value)); }
        Rbe::Star { value } => { assert forall|k: Key| #[trigger] syms(*value, k) implies t.component_key@.dom().contains(k) by { assert(syms(e, k)); } }
        Rbe::Plus { value } => { assert forall|k: Key| #[trigger] syms(*value, k) implies t.component_key@.dom().contains(k) by { assert(syms(e, k)); } }
        Rbe::Repeat { value, card } => { assert forall|k: Key| #[trigger] syms(*value, k) implies t.component_key@.dom().contains(k) by { assert(syms(e, k)); } }
        _ => {}
    }
}
@fn cnv_key r
    requires $2.component_key@.dom().contains(*$1),
@endfn
@fn cnv_cond r
    requires $2.component_cond@.dom().contains(*$1),
@endfn
@fn cnv_rbe r
    requires wf(*$1), tab_ok(*$2), in_tab(*$1, *$2),
    ensures cn(r) <==> nullable(*$1),
    decreases *$1,
@start
    proof { lemma_nullable_rules(*$1); lemma_in_tab(*$1, *$2); if let Rbe::Symbol { value, card } = $1 { assert(card_has(*card, 0) <==> card.min.value == 0); assert(nullable(*$1) <==> card_has(*card, 0)); } }
@loop 0
    invariant forall|j: int| 0 <= j < $i ==> (cn(#[trigger] $acc@[j]) <==> nullable(values@[j])), $acc@.len() == $i,
@loop 1
    invariant forall|j: int| 0 <= j < $i ==> (cn(#[trigger] $acc@[j]) <==> nullable(values@[j])), $acc@.len() == $i,
@afterlet values1
    proof {
        lemma_cn_and(RbeCond::And { exprs: values1 }); lemma_cn_or(RbeCond::Or { exprs: values1 });
        if *$1 is And {
            if nullable(*$1) { assert forall|j: int| 0 <= j < values1@.len() implies cn(#[trigger] values1@[j]) by { assert(nullable(values@[j])); } assert(cn_all(values1@)); }
            if cn_all(values1@) { assert forall|j: int| 0 <= j < values@.len() implies nullable(#[trigger] values@[j]) by { assert(cn(values1@[j])); } assert(nullable(*$1)); }
        } else {
            if cn_any(values1@) { let j = choose|j: int| 0 <= j < values1@.len() && cn(#[trigger] values1@[j]); assert(nullable(values@[j])); assert(nullable(*$1)); }
            else { assert forall|j: int| 0 <= j < values@.len() implies !nullable(#[trigger] values@[j]) by { assert(!cn(values1@[j])); } assert(!nullable(*$1)); }
        }
    }
@attrs #[verifier::loop_isolation(false)]
@endfn
@fn EmptyIter::new r
    requires wf($1.rbe), tab_ok(*$2), in_tab($1.rbe, *$2),
    ensures r.is_first, cn(r.rbe) <==> nullable($1.rbe),
@endfn
@fn EmptyIter@Iterator::next r
    ensures !final(self).is_first, final(self).rbe == old(self).rbe,
        old(self).is_first ==> r is Some && (r->Some_0 is Ok <==> cn(old(self).rbe)) && (r->Some_0 is Ok ==> r->Some_0->Ok_0@ == ISet::<(Node, ShapeLabelIdx)>::empty()),
        !old(self).is_first ==> r is None,
@endfn
// ---- choices: one component of the table for every value of the neighbourhood ----
pub type Choice = (Pred, Node, SemanticActionContext, Key, MatchCond);
pub type Triple = (Pred, Node, SemanticActionContext);
pub open spec fn choice_of(t: RbeTable, v: Triple, c: Choice) -> bool {
    c.0 == v.0 && c.1 == v.1 && c.2 == v.2 && tab_keys(t, v.0, c.3) && c.4 == t.component_cond@[c.3]
}
pub open spec fn c_ok(c: Choice) -> bool { mc_ok(c.4, c.1, c.2) }
pub open spec fn conds_ok(s: Seq<Choice>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_ok(#[trigger] s[i]) }
pub open spec fn keys_of(s: Seq<Choice>) -> Seq<Key> { s.map_values(|c: Choice| c.3) }
pub open spec fn bag_ok(s: Seq<Choice>, e: Rbe, open: bool) -> bool { lang(e, restrict(keys_of(s).to_multiset(), open, syms_set(e))) }
/// the references the choice leaves to be checked
pub open spec fn pend_of(s: Seq<Choice>) -> ISet<(Node, ShapeLabelIdx)> { ISet::new(|p: (Node, ShapeLabelIdx)| exists|i: int| 0 <= i < s.len() && pend((#[trigger] s[i]).4, s[i].1).contains(p)) }
/// a choice vector is a distribution of the neighbourhood over the components
pub open spec fn combo_of(t: RbeTable, vs: Seq<Triple>, c: Seq<Choice>) -> bool {
    c.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> choice_of(t, vs[i], #[trigger] c[i])
}
impl Bag { #[verifier::external_body] pub fn vx_from_vec(v: Vec<Key>) -> (r: Bag) ensures r@ == v@.to_multiset() { unimplemented!() } }
// itertools' cartesian product: every vector with one item of each list, once the lists are there
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct IterState { x: u64 }
impl IterState {
    pub uninterp spec fn rem(&self) -> Seq<Seq<Choice>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Vec<Choice>>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && r->Some_0@ == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first() { unimplemented!() }
}
impl Clone for IterState { #[verifier::external_body] fn clone(&self) -> (r: IterState) ensures r == *self { unimplemented!() } }
pub open spec fn combo_in(l: Seq<Vec<Choice>>, c: Seq<Choice>) -> bool { c.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> l[i]@.contains(#[trigger] c[i]) }
#[verifier::external_body] pub fn vx_product(l: Vec<Vec<Choice>>) -> (r: IterState) ensures forall|c: Seq<Choice>| #[trigger] r.rem().contains(c) <==> combo_in(l@, c) { unimplemented!() }
@remap-method multi_cartesian_product fn:vx_product
@erase-method into_iter self
@byval-iter vs prefilter_failed
@known failed_candidates
@known failed_cardinality
@file rbe/src/rbe_table.rs
@type struct IterCartesianProduct
@type enum MatchTableIter
pub open spec fn it_ok(it: IterCartesianProduct) -> bool { wf(it.rbe.rbe) && nofail(it.rbe.rbe) && rs_ok(it.rbe) }
/// conditions hold and the bag of components is not in the language
pub open spec fn skipped(s: Seq<Choice>, e: Rbe, open: bool) -> bool { conds_ok(s) && !bag_ok(s, e, open) }
/// index of the first choice that is not skipped
pub open spec fn stop(b: Seq<Seq<Choice>>, e: Rbe, open: bool) -> int decreases b.len() {
    if b.len() == 0 || !skipped(b[0], e, open) { 0 } else { 1 + stop(b.drop_first(), e, open) }
}
pub proof fn lemma_stop(b: Seq<Seq<Choice>>, e: Rbe, open: bool)
    ensures 0 <= stop(b, e, open) <= b.len(), forall|i: int| 0 <= i < stop(b, e, open) ==> skipped(#[trigger] b[i], e, open),
        stop(b, e, open) < b.len() ==> !skipped(b[stop(b, e, open)], e, open),
    decreases b.len(),
{
    if b.len() > 0 && skipped(b[0], e, open) {
        lemma_stop(b.drop_first(), e, open);
        assert forall|i: int| 0 <= i < stop(b, e, open) implies skipped(#[trigger] b[i], e, open) by { if i > 0 { assert(b.drop_first()[i - 1] == b[i]); } }
    }
}
/// the answer is that of the first choice that is not skipped, and the iteration goes on after it
pub open spec fn stepped(b: Seq<Seq<Choice>>, after: Seq<Seq<Choice>>, e: Rbe, open: bool, r: Option<Item>) -> bool {
    let j = stop(b, e, open);
    (r is None <==> j >= b.len())
    && (j < b.len() ==> after == b.skip(j + 1) && (r->Some_0 is Ok <==> conds_ok(b[j])) && (r->Some_0 is Ok ==> bag_ok(b[j], e, open) && r->Some_0->Ok_0@ == pend_of(b[j])))
}
@fn IterCartesianProduct@Iterator::next r
    requires it_ok(*old(self)),
    ensures final(self).rbe == old(self).rbe, final(self).open == old(self).open, it_ok(*final(self)),
        stepped(old(self).state.rem(), final(self).state.rem(), old(self).rbe.rbe, old(self).open, r),
@start
    let ghost vx_b = self.state.rem(); let ghost vx_e = self.rbe.rbe; let ghost vx_op = self.open; let ghost vx_rbe = self.rbe;
    proof { assert(vx_b =~= vx_b.skip(0)); }
@loop 0
    invariant self.rbe == vx_rbe, self.open == vx_op, it_ok(*self), self.state.rem().len() <= vx_b.len(),
        self.state.rem() == vx_b.skip(vx_b.len() - self.state.rem().len()),
        stop(vx_b, vx_e, vx_op) == vx_b.len() - self.state.rem().len() + stop(self.state.rem(), vx_e, vx_op),
    decreases self.state.rem().len(),
@loopstart 0
    let ghost vx_m = self.state.rem(); let ghost vx_k = vx_b.len() - vx_m.len();
    proof { lemma_stop(vx_m, vx_e, vx_op); if vx_m.len() > 0 { assert(vx_m[0] == vx_b[vx_k]); assert(vx_m.drop_first() =~= vx_b.skip(vx_k + 1)); assert(vx_m.skip(1) =~= vx_m.drop_first()); } }
@afterlet candidate
    let ghost vx_s = vs@;
@loopstart 2
    proof { if !c_ok(vx_s[$i as int]) { assert(!conds_ok(vx_s)); } }
@loopafter 3
    proof { assert($acc@ =~= keys_of(vx_s)); }
@loop 2
    invariant forall|j: int| 0 <= j < $i ==> c_ok(#[trigger] vs@[j]),
        forall|p: (Node, ShapeLabelIdx)| #[trigger] pending@.contains(p) <==> exists|j: int| 0 <= j < $i && pend((#[trigger] vs@[j]).4, vs@[j].1).contains(p),
@loop 3
    invariant $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == vx_s[j].3,
@afterlet bag
    proof { keys_of(vx_s).to_multiset_ensures(); assert(pending@ =~= pend_of(vx_s)); assert(conds_ok(vx_s)); }
@attrs #[verifier::loop_isolation(false)]
@endfn

pub proof fn lemma_push<T>(s: Seq<T>, x: T) ensures forall|c: T| #[trigger] s.push(x).contains(c) <==> s.contains(c) || c == x {
    assert forall|c: T| #[trigger] s.push(x).contains(c) <==> s.contains(c) || c == x by {
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.push(x)[i] == c); }
        assert(s.push(x)[s.len() as int] == x);
        if s.push(x).contains(c) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == c; if i < s.len() { assert(s[i] == c); } }
    }
}
pub open spec fn t_wf(t: RbeTable) -> bool { tab_ok(t) && wf(t.rbe.rbe) && nofail(t.rbe.rbe) && rs_ok(t.rbe) && in_tab(t.rbe.rbe, t) }
/// the candidates kept for a value: components of its key, none lost whose condition holds; a kept one whose condition fails is the only one
pub open spec fn cand_ok(t: RbeTable, v: Triple, l: Seq<Choice>) -> bool {
    (forall|c: Choice| #[trigger] l.contains(c) ==> choice_of(t, v, c)) && (forall|c: Choice| choice_of(t, v, c) && #[trigger] c_ok(c) ==> l.contains(c))
    && (forall|c: Choice, d: Choice| #[trigger] l.contains(c) && !c_ok(c) && #[trigger] choice_of(t, v, d) ==> d == c)
}
pub open spec fn in_keys(t: RbeTable, vs: Seq<Triple>) -> bool { forall|i: int| 0 <= i < vs.len() ==> t.key_components@.dom().contains((#[trigger] vs[i]).0) && ks_items(t.key_components@[vs[i].0]@).len() > 0 }
/// fewer candidate pairs than machine integers
pub open spec fn few(t: RbeTable, n: nat, b: nat) -> bool { b * n <= usize::MAX && forall|k: Pred| #[trigger] t.key_components@.dom().contains(k) ==> ks_items(t.key_components@[k]@).len() <= b }
pub open spec fn tbl_iter(t: RbeTable, vs: Seq<Triple>, it: MatchTableIter) -> bool {
    match it {
        MatchTableIter::Empty(e) => vs.len() == 0 && e.is_first && (cn(e.rbe) <==> nullable(t.rbe.rbe)),
        MatchTableIter::NonEmpty(cp) => it_ok(cp) && cp.rbe == t.rbe && cp.open == t.open && vs.len() > 0
            && (forall|j: int| 0 <= j < cp.state.rem().len() ==> combo_of(t, vs, #[trigger] cp.state.rem()[j]))
            && (forall|c: Seq<Choice>| combo_of(t, vs, c) && #[trigger] conds_ok(c) ==> cp.state.rem().contains(c))
            && (forall|j: int, c: Seq<Choice>| 0 <= j < cp.state.rem().len() && !conds_ok(#[trigger] cp.state.rem()[j]) && #[trigger] combo_of(t, vs, c) ==> !conds_ok(c)),
    }
}
pub proof fn lemma_rem(t: RbeTable, vs: Seq<Triple>, l: Seq<Vec<Choice>>, rem: Seq<Seq<Choice>>)
    requires l.len() == vs.len(), forall|q: int| 0 <= q < vs.len() ==> cand_ok(t, vs[q], (#[trigger] l[q])@), forall|c: Seq<Choice>| #[trigger] rem.contains(c) <==> combo_in(l, c),
    ensures (forall|j: int| 0 <= j < rem.len() ==> combo_of(t, vs, #[trigger] rem[j])),
        (forall|c: Seq<Choice>| combo_of(t, vs, c) && #[trigger] conds_ok(c) ==> rem.contains(c)),
        (forall|j: int, c: Seq<Choice>| 0 <= j < rem.len() && !conds_ok(#[trigger] rem[j]) && #[trigger] combo_of(t, vs, c) ==> !conds_ok(c)),
{
    assert forall|j: int| 0 <= j < rem.len() implies combo_of(t, vs, #[trigger] rem[j]) by {
        assert(rem.contains(rem[j])); let c = rem[j];
        assert forall|i: int| 0 <= i < vs.len() implies choice_of(t, vs[i], #[trigger] c[i]) by { assert(cand_ok(t, vs[i], l[i]@)); assert(l[i]@.contains(c[i])); }
    }
    assert forall|c: Seq<Choice>| combo_of(t, vs, c) && #[trigger] conds_ok(c) implies rem.contains(c) by {
        assert forall|i: int| 0 <= i < l.len() implies l[i]@.contains(#[trigger] c[i]) by { assert(cand_ok(t, vs[i], l[i]@)); assert(c_ok(c[i])); }
        assert(combo_in(l, c));
    }
    assert forall|j: int, c: Seq<Choice>| 0 <= j < rem.len() && !conds_ok(#[trigger] rem[j]) && #[trigger] combo_of(t, vs, c) implies !conds_ok(c) by {
        assert(rem.contains(rem[j])); let i = choose|i: int| 0 <= i < rem[j].len() && !c_ok(#[trigger] rem[j][i]);
        assert(cand_ok(t, vs[i], l[i]@)); assert(l[i]@.contains(rem[j][i])); assert(choice_of(t, vs[i], c[i])); assert(c[i] == rem[j][i]); assert(!c_ok(c[i]));
    }
}
@fn RbeTable::matches r
    requires t_wf(*self), in_keys(*self, $1@), exists|b: nat| few(*self, $1@.len(), b),
    ensures r is Ok, tbl_iter(*self, $1@, r->Ok_0),
@letty candidates Vec<Vec<Choice>>
@letty pairs Vec<Choice>
@letty last_err Option<RbeError>
@letty pairs_found usize
@letty prefilter_failed Vec<(Pred, Node, RbeError)>
@start
    let ghost vx_n = $1@.len(); let ghost vx_t = *self; let ghost vx_vs = $1@;
    let ghost vx_b = choose|b: nat| few(*self, $1@.len(), b);
@loop 0
    invariant candidates@.len() == $i, pairs_found <= $i * vx_b, $i > 0 ==> pairs_found > 0 || prefilter_failed@.len() > 0,
        forall|q: int| 0 <= q < $i ==> cand_ok(vx_t, vx_vs[q], (#[trigger] candidates@[q])@),
@loopstart 0
    let ghost vx_v = vx_vs[$i as int]; let ghost vx_i0 = $i as int; let ghost vx_pf0 = pairs_found as int; let ghost vx_c0 = candidates@; let ghost vx_f0 = prefilter_failed@.len();
    proof { assert(vx_t.key_components@.dom().contains(vx_v.0)); axiom_items(vx_t.key_components@[vx_v.0]@);
        assert(vx_i0 * vx_b + vx_b == (vx_i0 + 1) * vx_b) by(nonlinear_arith);
        assert((vx_i0 + 1) * vx_b <= vx_n * vx_b) by(nonlinear_arith) requires vx_i0 + 1 <= vx_n;
        assert(vx_n * vx_b == vx_b * vx_n) by(nonlinear_arith); }
@loop 1
    invariant pairs_found <= vx_pf0 + $i, pairs_found as int == vx_pf0 + pairs@.len(), candidates@ == vx_c0, prefilter_failed@.len() == vx_f0,
        pairs@.len() == 0 && $i > 0 ==> last_err is Some,
        forall|c: Choice| #[trigger] pairs@.contains(c) ==> choice_of(vx_t, vx_v, c) && c_ok(c),
        forall|q: int, c: Choice| 0 <= q < $i && choice_of(vx_t, vx_v, c) && #[trigger] c_ok(c) && c.3 == #[trigger] $c@[q] ==> pairs@.contains(c),
@loopstart 1
    let ghost vx_k = $c@[$i as int]; let ghost vx_p0 = pairs@;
    proof { assert($c@.contains(vx_k)); assert(tab_keys(vx_t, vx_v.0, vx_k)); lemma_push(vx_p0, (vx_v.0, vx_v.1, vx_v.2, vx_k, vx_t.component_cond@[vx_k])); }
@loopafter 1
    proof {
        assert forall|c: Choice| choice_of(vx_t, vx_v, c) && #[trigger] c_ok(c) implies pairs@.contains(c) by {
            assert($c@.contains(c.3)); let q = choose|q: int| 0 <= q < $c@.len() && $c@[q] == c.3; assert($c@[q] == c.3);
        }
        assert(cand_ok(vx_t, vx_v, pairs@));
    }
@loop 2
    invariant pairs_found as int == vx_pf0 + $i, candidates@ == vx_c0, prefilter_failed@.len() == vx_f0, pairs@.len() == $i,
        forall|q: int| 0 <= q < $i ==> (#[trigger] pairs@[q]) == (vx_v.0, vx_v.1, vx_v.2, $c@[q], vx_t.component_cond@[$c@[q]]),
@loopstart 2
    let ghost vx_k = $c@[$i as int];
    proof { assert($c@.contains(vx_k)); assert(tab_keys(vx_t, vx_v.0, vx_k)); }
@loopafter 2
    proof {
        assert($c@.len() == 1); assert(pairs@[0].3 == $c@[0]);
        assert forall|c: Choice| #[trigger] choice_of(vx_t, vx_v, c) implies c == pairs@[0] by { assert($c@.contains(c.3)); }
        assert(tab_keys(vx_t, vx_v.0, $c@[0])) by { assert($c@.contains($c@[0])); }
        assert forall|c: Choice| #[trigger] pairs@.contains(c) implies c == pairs@[0] by {}
        assert(pairs@.contains(pairs@[0]));
        assert(cand_ok(vx_t, vx_v, pairs@));
    }
@afterlet mp
    proof { lemma_rem(vx_t, vx_vs, candidates@, mp.rem()); }
@attrs #[verifier::loop_isolation(false)]
@endfn
// ---- a neighbourhood is accepted when some distribution satisfies conditions, cardinalities and references ----
pub open spec fn accepts(t: RbeTable, vs: Seq<Triple>, c: Seq<Choice>) -> bool { combo_of(t, vs, c) && conds_ok(c) && bag_ok(c, t.rbe.rbe, t.open) }
pub open spec fn good(t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>, c: Seq<Choice>) -> bool { accepts(t, vs, c) && pend_of(c).subset_of(typ) }
pub open spec fn sat(t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>) -> bool { exists|c: Seq<Choice>| good(t, vs, typ, c) }
pub open spec fn rest(b: MatchTableIter) -> Seq<Seq<Choice>> {
    match b { MatchTableIter::NonEmpty(cp) => cp.state.rem(), MatchTableIter::Empty(e) => if e.is_first { seq![seq![]] } else { seq![] } }
}
pub open spec fn st_ok(t: RbeTable, vs: Seq<Triple>, b: MatchTableIter) -> bool {
    match b {
        MatchTableIter::Empty(e) => vs.len() == 0 && (e.is_first ==> (cn(e.rbe) <==> nullable(t.rbe.rbe))),
        MatchTableIter::NonEmpty(cp) => cp.rbe == t.rbe && cp.open == t.open
            && (forall|j: int| 0 <= j < cp.state.rem().len() ==> combo_of(t, vs, #[trigger] cp.state.rem()[j]))
            && (forall|j: int, c: Seq<Choice>| 0 <= j < cp.state.rem().len() && !conds_ok(#[trigger] cp.state.rem()[j]) && #[trigger] combo_of(t, vs, c) ==> !conds_ok(c)),
    }
}
pub open spec fn iter_wf(b: MatchTableIter) -> bool { match b { MatchTableIter::NonEmpty(cp) => it_ok(cp), _ => true } }
/// every good distribution is still to come
pub open spec fn left(t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>, b: MatchTableIter) -> bool {
    st_ok(t, vs, b) && forall|c: Seq<Choice>| #[trigger] good(t, vs, typ, c) ==> rest(b).contains(c)
}
pub open spec fn after(t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>, r: Option<Item>, b: MatchTableIter) -> bool {
    match r {
        None => !sat(t, vs, typ),
        Some(Err(_)) => !sat(t, vs, typ),
        Some(Ok(p)) => if p@.subset_of(typ) { sat(t, vs, typ) } else { left(t, vs, typ, b) },
    }
}
pub open spec fn nexted(o: MatchTableIter, b: MatchTableIter, r: Option<Item>) -> bool {
        match (o, b) {
            (MatchTableIter::NonEmpty(c), MatchTableIter::NonEmpty(d)) => c.rbe == d.rbe && c.open == d.open && stepped(c.state.rem(), d.state.rem(), c.rbe.rbe, c.open, r),
            (MatchTableIter::Empty(e), MatchTableIter::Empty(f)) => !f.is_first && f.rbe == e.rbe && (e.is_first ==> r is Some && (r->Some_0 is Ok <==> cn(e.rbe)) && (r->Some_0 is Ok ==> r->Some_0->Ok_0@ == ISet::<(Node, ShapeLabelIdx)>::empty())) && (!e.is_first ==> r is None),
            _ => false,
        }
}
pub proof fn lemma_next(t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>, o: MatchTableIter, b: MatchTableIter, r: Option<Item>)
    requires left(t, vs, typ, o),
        nexted(o, b, r),
    ensures after(t, vs, typ, r, b), r is Some ==> rest(b).len() < rest(o).len(),
{
    match (o, b) {
        (MatchTableIter::NonEmpty(cp), MatchTableIter::NonEmpty(d)) => {
            let f = cp.state.rem(); let e = cp.rbe.rbe; let op = cp.open;
            lemma_stop(f, e, op); let j = stop(f, e, op);
            if j >= f.len() {
                if sat(t, vs, typ) { let c = choose|c: Seq<Choice>| good(t, vs, typ, c); assert(f.contains(c)); let i = choose|i: int| 0 <= i < f.len() && f[i] == c; assert(skipped(f[i], e, op)); }
            } else if !conds_ok(f[j]) {
                if sat(t, vs, typ) { let c = choose|c: Seq<Choice>| good(t, vs, typ, c); assert(combo_of(t, vs, c)); }
            } else {
                let p = r->Some_0->Ok_0@;
                assert(combo_of(t, vs, f[j])); if p.subset_of(typ) { assert(good(t, vs, typ, f[j])); }
                if !p.subset_of(typ) {
                    assert forall|c: Seq<Choice>| #[trigger] good(t, vs, typ, c) implies d.state.rem().contains(c) by {
                        assert(f.contains(c)); let i = choose|i: int| 0 <= i < f.len() && f[i] == c; if i < j { assert(skipped(f[i], e, op)); } assert(i > j); assert(f.skip(j + 1)[i - j - 1] == c);
                    }
                    assert forall|i: int| 0 <= i < d.state.rem().len() implies combo_of(t, vs, #[trigger] d.state.rem()[i]) by { assert(d.state.rem()[i] == f[i + j + 1]); }
                    assert forall|i: int, c: Seq<Choice>| 0 <= i < d.state.rem().len() && !conds_ok(#[trigger] d.state.rem()[i]) && #[trigger] combo_of(t, vs, c) implies !conds_ok(c) by { assert(d.state.rem()[i] == f[i + j + 1]); }
                }
            }
        }
        (MatchTableIter::Empty(e), MatchTableIter::Empty(f)) => {
            let n: Seq<Choice> = seq![];
            assert(keys_of(n) =~= Seq::<Key>::empty()); n.to_multiset_ensures(); keys_of(n).to_multiset_ensures();
            assert(keys_of(n).to_multiset() =~= Multiset::empty());
            assert(restrict(Multiset::empty(), t.open, syms_set(t.rbe.rbe)) =~= Multiset::<Key>::empty()) by { lemma_restrict(Multiset::empty(), t.open, syms_set(t.rbe.rbe)); }
            assert(bag_ok(n, t.rbe.rbe, t.open) <==> nullable(t.rbe.rbe));
            assert(pend_of(n) =~= ISet::<(Node, ShapeLabelIdx)>::empty());
            assert(combo_of(t, vs, n)); assert(conds_ok(n));
            assert forall|c: Seq<Choice>| #[trigger] good(t, vs, typ, c) implies c == n by { assert(c =~= n); }
            if e.is_first { if r->Some_0 is Ok { assert(good(t, vs, typ, n)); } }
            else if sat(t, vs, typ) { let c = choose|c: Seq<Choice>| good(t, vs, typ, c); assert(rest(o).contains(c)); }
        }
        _ => {}
    }
}
pub proof fn lemma_init(t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>, b: MatchTableIter)
    requires tbl_iter(t, vs, b),
    ensures left(t, vs, typ, b), iter_wf(b),
{
    match b { MatchTableIter::Empty(e) => {
        assert forall|c: Seq<Choice>| #[trigger] good(t, vs, typ, c) implies rest(b).contains(c) by { assert(c =~= seq![]); assert(rest(b)[0] == c); }
    } _ => {} }
}
@fn MatchTableIter@Iterator::next r
    requires iter_wf(*old(self)),
    ensures iter_wf(*final(self)), nexted(*old(self), *final(self), r),
@endfn

/// the items of the option, then those of the iterator
pub fn vx_chain_next(a: &mut Option<Item>, b: &mut MatchTableIter) -> (r: Option<Item>)
    requires iter_wf(*old(b)),
    ensures iter_wf(*final(b)), *final(a) is None, *old(a) is Some ==> r == *old(a) && *final(b) == *old(b), *old(a) is None ==> forall|t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>| #[trigger] left(t, vs, typ, *old(b)) ==> after(t, vs, typ, r, *final(b)) && (r is Some ==> rest(*final(b)).len() < rest(*old(b)).len()),
{
    let ghost b0 = *b;
    let mut x: Option<Item> = None;
    core::mem::swap(a, &mut x);
    match x { Some(v) => Some(v), None => {
        let r = b.next();
        proof { assert forall|t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>| #[trigger] left(t, vs, typ, b0) implies after(t, vs, typ, r, *b) && (r is Some ==> rest(*b).len() < rest(b0).len()) by { lemma_next(t, vs, typ, b0, *b, r); } }
        r
    } }
}
@subst-type ValidatorError RbeError
@erase-path ValidatorError::* rbe_err()
@erase-path NoMatchReason::* rbe_err()
@erase-path Reason::* reason()
@subst-type NoMatchReason RbeError
#[verifier::external_body] pub struct Reason { x: u64 }
#[verifier::external_body] pub fn reason() -> Reason { unimplemented!() }
impl MatchTableIter {
    #[verifier::external_body] pub fn failed_candidates(&self) -> Vec<(Vec<(Pred, Node)>, Pred, Node, RbeError)> { unimplemented!() }
    #[verifier::external_body] pub fn failed_cardinality(&self) -> Vec<(Vec<(Pred, Node)>, DerivError)> { unimplemented!() }
}
impl RbeTable { #[verifier::external_body] pub fn cardinality_violations(&self, e: &DerivError) -> Result<Vec<(Pred, Cardinality, usize)>, String> { unimplemented!() } }
impl<L, R> Either<L, R> {
    pub fn is_left(&self) -> (r: bool) ensures r == (*self is Left) { match self { Either::Left(_) => true, Either::Right(_) => false } }
    pub fn is_right(&self) -> (r: bool) ensures r == (*self is Right) { match self { Either::Left(_) => false, Either::Right(_) => true } }
    pub fn left(self) -> (r: Option<L>) ensures r is Some <==> self is Left { match self { Either::Left(x) => Some(x), Either::Right(_) => None } }
}
pub type ValidationResult = Either<Vec<RbeError>, Vec<Reason>>;
@iter-result failed_cardinality
@iter-result iter_vr
@remap-method last fnref:vx_last
#[verifier::external_body] pub fn vx_last<T>(v: &Vec<T>) -> Option<&T> { unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec(v: &[Triple]) -> (r: Vec<Triple>) ensures r@ == v@ { unimplemented!() }
@remap-method to_vec fn:vx_to_vec
pub open spec fn chain_ok(t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>, a: Option<Item>, b: MatchTableIter) -> bool {
    match a { None => left(t, vs, typ, b), Some(_) => after(t, vs, typ, a, b) }
}
@file shex_validation/src/engine.rs
@fn pass r
@ret Result<ValidationResult, RbeError>
    ensures r is Ok, r->Ok_0 is Right,
@endfn
@fn fail r
@ret Result<ValidationResult, RbeError>
    ensures r is Ok, r->Ok_0 is Left,
@endfn
@fn check_expr_neigh r
@ret Result<ValidationResult, RbeError>
    requires t_wf(*$1), in_keys(*$1, $2@), exists|b: nat| few(*$1, $2@.len(), b),
    ensures r is Ok, r->Ok_0 is Right <==> sat(*$1, $2@, $6@),
@letty reasons Vec<RbeError>
@letty errors Vec<RbeError>
@letty failed_pending Vec<(Node, ShapeLabelIdx, Vec<Pred>, Vec<RbeError>)>
@start
    let ghost vx_t = *$1; let ghost vx_vs = $2@; let ghost vx_typ = $6@;
@afterlet result_iter
    let ghost vx_o = result_iter;
    proof { lemma_init(vx_t, vx_vs, vx_typ, result_iter); }
@afterlet first_result
    proof { lemma_next(vx_t, vx_vs, vx_typ, vx_o, result_iter, first_result); }
@loop 3
    invariant iter_wf(result_iter), chain_ok(vx_t, vx_vs, vx_typ, $it, result_iter),
    ensures !sat(vx_t, vx_vs, vx_typ),
    decreases rest(result_iter).len() + (if $it is Some { 1nat } else { 0nat }),
@loop 4
    invariant failed_pending@.len() == 0 <==> forall|q: int| 0 <= q < $i ==> typing@.contains((#[trigger] $c@[q].0, $c@[q].1)),
@loopafter 4
    proof { assert(failed_pending@.len() == 0 <==> pending_values@.subset_of(vx_typ)) by {
        if failed_pending@.len() == 0 { assert forall|x: (Node, ShapeLabelIdx)| pending_values@.contains(x) implies vx_typ.contains(x) by { assert(pending_values@.contains((x.0, x.1))); } }
        else { let q = choose|q: int| 0 <= q < $c@.len() && !typing@.contains((#[trigger] $c@[q].0, $c@[q].1)); assert(pending_values@.contains(($c@[q].0, $c@[q].1))); }
    } }
@attrs #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@endfn
