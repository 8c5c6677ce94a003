// ---- triple expressions: what they mean, and that the compiled table means the same ----
@erase-path SchemaIRError::* irerr()
@erase-macro info ()
@erase-macro trace ()
@erase-generics RbeStruct
@subst-type SchemaIRError IrErr
#[verifier::external_body] pub struct IrErr { x: u64 }
#[verifier::external_body] pub fn irerr() -> IrErr { unimplemented!() }
pub type CResult<T> = Result<T, Box<IrErr>>;
#[verifier::external_body] pub struct SchemaIR { x: u64 }
#[verifier::external_body] pub struct PrefixMap { x: u64 }
impl SchemaIR { #[verifier::external_body] pub fn prefixmap(&self) -> PrefixMap { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct ShapeExpr { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct SemAct { x: u64 }
#[verifier::external_body] pub struct IrSemAct { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct Annotation { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types_in_ground_variants] pub struct TripleExprLabel { x: u64 }
impl Clone for IriS { #[verifier::external_body] fn clone(&self) -> (r: IriS) ensures r == *self { unimplemented!() } }
pub enum IriRef { Iri(IriS), Prefixed { prefix: String, local: String } }
pub uninterp spec fn mk_pred(i: IriS, direct: bool) -> Pred;
@remap-path Pred::new Pred::vx_new
impl Pred { #[verifier::external_body] pub fn vx_new(i: IriS, direct: bool) -> (r: Pred) ensures r == mk_pred(i, direct) { unimplemented!() } }
@file shex_ast/src/ast/triple_expr.rs
@type enum TripleExpr
@type struct TripleExprWrapper
pub struct AST2IR { pub triple_expr_labels: IndexMap<TripleExprLabel, TripleExpr> }
/// the value satisfies the value expression and the semantic actions of a constraint (node constraints: proved in unit S06)
pub uninterp spec fn ve_ok(v: Option<Box<ShapeExpr>>, a: Option<Vec<SemAct>>, n: Node, c: SemanticActionContext) -> bool;
/// the shapes it refers to
pub uninterp spec fn ve_refs(v: Option<Box<ShapeExpr>>, s: ShapeLabelIdx) -> bool;
pub uninterp spec fn acts_of(a: Seq<IrSemAct>) -> Option<Vec<SemAct>>;
pub open spec fn vc(v: Option<Box<ShapeExpr>>, a: Option<Vec<SemAct>>, m: MatchCond) -> bool {
    (forall|n: Node, c: SemanticActionContext| #[trigger] mc_ok(m, n, c) <==> ve_ok(v, a, n, c)) && (forall|s: ShapeLabelIdx| #[trigger] mc_refs(m, s) <==> ve_refs(v, s))
}
impl AST2IR {
    #[verifier::external_body] pub fn cnv_sem_actions(&self, a: &Option<Vec<SemAct>>, p: &PrefixMap) -> (r: CResult<Vec<IrSemAct>>) ensures r is Ok ==> acts_of(r->Ok_0@) == *a { unimplemented!() }
    #[verifier::external_body] pub fn sem_acts_to_conds(&self, a: Vec<IrSemAct>) -> CResult<Vec<MatchCond>> { unimplemented!() }
    #[verifier::external_body] pub fn value_expr2match_cond(&self, v: &Option<Box<ShapeExpr>>, a: Vec<IrSemAct>, s: &mut SchemaIR, i: &IriS, b: &Option<IriS>) -> (r: CResult<(MatchCond, String)>)
        ensures r is Ok ==> vc(*v, acts_of(a@), r->Ok_0.0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_referenced(&self, r: &TripleExprLabel) -> CResult<TripleExpr> { unimplemented!() }
}
// ---- cardinalities ----
pub open spec fn min_of(m: Option<i32>) -> int { match m { Some(k) => k as int, None => 1 } }
pub open spec fn max_of(m: Option<i32>) -> Max { match m { Some(k) => if k == -1 { Max::Unbounded } else { Max::IntMax(k as usize) }, None => Max::IntMax(1) } }
pub open spec fn mm_ok(a: Option<i32>, b: Option<i32>) -> bool { min_of(a) >= 0 && (b matches Some(k) ==> k >= -1) }
/// {min,max} with the defaults of the language: one, and -1 for unbounded
pub open spec fn mm_has(a: Option<i32>, b: Option<i32>, n: int) -> bool { min_of(a) <= n && le_max(n, max_of(b)) }
@file rbe/src/min.rs
@fn Min@From<i32>::from r
@rename vx_i32
    ensures $1 >= 0 ==> r.value == $1,
@endfn
@file rbe/src/max.rs
@fn Max@From<i32>::from r
@rename vx_i32
    ensures $1 >= 0 ==> r == Max::IntMax($1 as usize),
@endfn
@remap-path Min::from Min::vx_i32
@remap-path Max::from Max::vx_i32
@file shex_ast/src/ir/ast2ir.rs
@fn AST2IR::cnv_min r
    ensures r is Ok <==> min_of(*$1) >= 0, r is Ok ==> r->Ok_0.value == min_of(*$1),
@endfn
@fn AST2IR::cnv_max r
    ensures r is Ok <==> (*$1 matches Some(k) ==> k >= -1), r is Ok ==> r->Ok_0 == max_of(*$1),
@endfn
@fn AST2IR::cnv_min_max r
    ensures r is Ok <==> mm_ok(*$1, *$2), r is Ok ==> r->Ok_0.min.value == min_of(*$1) && r->Ok_0.max == max_of(*$2),
@endfn
@fn AST2IR::cnv_predicate r
    ensures r is Ok <==> *$1 is Iri, r is Ok ==> r->Ok_0 == mk_pred($1->Iri_0, !(*$2 == Some(true))),
@endfn
pub open spec fn group_has(e: Rbe, c: Cardinality, m: MS) -> bool { exists|k: nat| card_has(c, k as int) && #[trigger] tn(k) && lang_pow(e, k, m) }
pub open spec fn grp_eq(g: Rbe, e: Rbe, c: Cardinality) -> bool { forall|m: MS| #[trigger] lang(g, m) <==> group_has(e, c, m) }
pub open spec fn same_syms(g: Rbe, e: Rbe) -> bool { forall|k: Key| #[trigger] syms(g, k) <==> syms(e, k) }
pub proof fn lemma_group(e: Rbe, c: Cardinality)
    ensures c.min.value == 1 && c.max == Max::IntMax(1) ==> forall|m: MS| #[trigger] lang(e, m) <==> group_has(e, c, m),
        c.min.value == 0 && c.max is Unbounded ==> forall|m: MS| #[trigger] lang(Rbe::Star { value: Box::new(e) }, m) <==> group_has(e, c, m),
        c.min.value == 1 && c.max is Unbounded ==> forall|m: MS| #[trigger] lang(Rbe::Plus { value: Box::new(e) }, m) <==> group_has(e, c, m),
        forall|d: Rbe, m: MS| d is Repeat && rep_value(d) == e && rep_card(d).min.value == c.min.value && rep_card(d).max == c.max ==> (#[trigger] lang(d, m) <==> group_has(e, c, m)),
{
    if c.min.value == 1 && c.max == Max::IntMax(1) { assert forall|m: MS| #[trigger] lang(e, m) <==> group_has(e, c, m) by { lemma_pow_one(e, m); assert(tn(1)); if lang(e, m) { assert(card_has(c, 1) && lang_pow(e, 1, m)); assert(group_has(e, c, m)); } if group_has(e, c, m) { let k = choose|k: nat| card_has(c, k as int) && #[trigger] tn(k) && lang_pow(e, k, m); assert(k == 1); } } }
    if c.min.value == 0 && c.max is Unbounded { assert forall|m: MS| #[trigger] lang(Rbe::Star { value: Box::new(e) }, m) <==> group_has(e, c, m) by {
        if group_has(e, c, m) { let k = choose|k: nat| card_has(c, k as int) && #[trigger] tn(k) && lang_pow(e, k, m); assert(tn(k) && lang_pow(e, k, m)); }
        if lang(Rbe::Star { value: Box::new(e) }, m) { let k = choose|k: nat| #[trigger] tn(k) && lang_pow(e, k, m); assert(card_has(c, k as int) && tn(k)); } } }
    if c.min.value == 1 && c.max is Unbounded { assert forall|m: MS| #[trigger] lang(Rbe::Plus { value: Box::new(e) }, m) <==> group_has(e, c, m) by {
        if group_has(e, c, m) { let k = choose|k: nat| card_has(c, k as int) && #[trigger] tn(k) && lang_pow(e, k, m); assert(k >= 1 && tn(k) && lang_pow(e, k, m)); }
        if lang(Rbe::Plus { value: Box::new(e) }, m) { let k = choose|k: nat| k >= 1 && #[trigger] tn(k) && lang_pow(e, k, m); assert(card_has(c, k as int) && tn(k)); } } }
    assert forall|d: Rbe, m: MS| d is Repeat && rep_value(d) == e && rep_card(d).min.value == c.min.value && rep_card(d).max == c.max implies (#[trigger] lang(d, m) <==> group_has(e, c, m)) by {
        if group_has(e, c, m) { let k = choose|k: nat| card_has(c, k as int) && #[trigger] tn(k) && lang_pow(e, k, m); assert(card_has(rep_card(d), k as int) && tn(k) && lang_pow(e, k, m)); }
        if lang(d, m) { let k = choose|k: nat| card_has(rep_card(d), k as int) && #[trigger] tn(k) && lang_pow(e, k, m); assert(card_has(c, k as int) && tn(k)); }
    }
}
@fn AST2IR::mk_card_group r
    requires rs_ok($1), wf($1.rbe), nofail($1.rbe), le_max($2.min.value as int, $2.max),
    ensures rs_ok(r), wf(r.rbe), nofail(r.rbe), grp_eq(r.rbe, $1.rbe, $2), same_syms(r.rbe, $1.rbe),
@start
    proof { lemma_group($1.rbe, $2); }
@endfn
// ---- the language of a triple expression over its constraints, numbered from n in order of appearance ----
pub open spec fn exprs(te: TripleExpr) -> Seq<TripleExprWrapper> { match te { TripleExpr::EachOf { expressions, .. } => expressions@, TripleExpr::OneOf { expressions, .. } => expressions@, _ => seq![] } }
pub open spec fn te_min(te: TripleExpr) -> Option<i32> { match te { TripleExpr::EachOf { min, .. } => min, TripleExpr::OneOf { min, .. } => min, TripleExpr::TripleConstraint { min, .. } => min, _ => None } }
pub open spec fn te_max(te: TripleExpr) -> Option<i32> { match te { TripleExpr::EachOf { max, .. } => max, TripleExpr::OneOf { max, .. } => max, TripleExpr::TripleConstraint { max, .. } => max, _ => None } }
pub open spec fn te_size(te: TripleExpr) -> nat decreases te, 1nat, 0nat {
    match te { TripleExpr::EachOf { expressions, .. } => size_upto(te, expressions@.len()), TripleExpr::OneOf { expressions, .. } => size_upto(te, expressions@.len()), TripleExpr::TripleConstraint { .. } => 1, TripleExpr::Ref(_) => 0 }
}
/// number of constraints of the first i members of a group
pub open spec fn size_upto(te: TripleExpr, i: nat) -> nat decreases te, 0nat, i
    when i <= exprs(te).len()
    via size_dec
{ if i == 0 { 0 } else { size_upto(te, (i - 1) as nat) + te_size(exprs(te)[i - 1].te) } }
#[via_fn] proof fn size_dec(te: TripleExpr, i: nat) { if i > 0 { match te { TripleExpr::EachOf { expressions, .. } => { assert(expressions@[i - 1] == exprs(te)[i - 1]); } TripleExpr::OneOf { expressions, .. } => { assert(expressions@[i - 1] == exprs(te)[i - 1]); } _ => {} } } }
pub open spec fn te_lang(te: TripleExpr, n: nat, m: MS) -> bool decreases te, 3nat, 0nat
    via lang_dec
{
    match te {
        TripleExpr::TripleConstraint { min, max, .. } => (forall|k: Key| k != comp(n) ==> #[trigger] m.count(k) == 0) && mm_has(min, max, m.count(comp(n)) as int),
        TripleExpr::Ref(_) => false,
        _ => exists|k: nat| mm_has(te_min(te), te_max(te), k as int) && #[trigger] tn(k) && te_pow(te, n, k, m),
    }
}
/// the sum of k bags of the members
pub open spec fn te_pow(te: TripleExpr, n: nat, k: nat, m: MS) -> bool decreases te, 2nat, k
    via pow_dec
{ if k == 0 { m =~= Multiset::empty() } else { exists|a: MS, b: MS| #[trigger] split(m, a, b) && te_body(te, n, a) && te_pow(te, n, (k - 1) as nat, b) } }
pub open spec fn te_body(te: TripleExpr, n: nat, m: MS) -> bool decreases te, 1nat, 0nat
    via body_dec
{
    match te {
        TripleExpr::EachOf { .. } => te_each(te, 0, n, m),
        TripleExpr::OneOf { .. } => exists|i: nat| i < exprs(te).len() && #[trigger] tn(i) && te_nth(te, i, n, m),
        _ => false,
    }
}
/// the i-th member
pub open spec fn te_nth(te: TripleExpr, i: nat, n: nat, m: MS) -> bool decreases te, 0nat, 0nat
    when i < exprs(te).len() via nth_dec
{ te_lang(exprs(te)[i as int].te, n + size_upto(te, i), m) }
pub open spec fn te_each(te: TripleExpr, i: nat, n: nat, m: MS) -> bool decreases te, 0nat, 1 + exprs(te).len() - i
    when i <= exprs(te).len() via each_dec
{ if i >= exprs(te).len() { m =~= Multiset::empty() } else { exists|a: MS, b: MS| #[trigger] split(m, a, b) && te_nth(te, i, n, a) && te_each(te, i + 1, n, b) } }
pub proof fn kid_dec(te: TripleExpr, i: int) requires 0 <= i < exprs(te).len(), ensures decreases_to!(te => exprs(te)[i].te)
{ match te { TripleExpr::EachOf { expressions, .. } => { assert(expressions@[i] == exprs(te)[i]); assert(decreases_to!(te => expressions@[i].te)); } TripleExpr::OneOf { expressions, .. } => { assert(decreases_to!(te => expressions@[i].te)); } _ => {} } }
#[via_fn] proof fn lang_dec(te: TripleExpr, n: nat, m: MS) {}
#[via_fn] proof fn pow_dec(te: TripleExpr, n: nat, k: nat, m: MS) {}
#[via_fn] proof fn body_dec(te: TripleExpr, n: nat, m: MS) {}
#[via_fn] proof fn nth_dec(te: TripleExpr, i: nat, n: nat, m: MS) { kid_dec(te, i as int); }
#[via_fn] proof fn each_dec(te: TripleExpr, i: nat, n: nat, m: MS) {}
/// groups have members and a satisfiable cardinality, constraints and groups carry no reference to a labelled expression
pub open spec fn te_ok(te: TripleExpr) -> bool decreases te {
    match te {
        TripleExpr::TripleConstraint { .. } => true,
        TripleExpr::Ref(_) => false,
        TripleExpr::EachOf { expressions, min, max, .. } => expressions@.len() > 0 && (mm_ok(min, max) ==> le_max(min_of(min), max_of(max))) && forall|i: int| 0 <= i < expressions@.len() ==> te_ok((#[trigger] expressions@[i]).te),
        TripleExpr::OneOf { expressions, min, max, .. } => expressions@.len() > 0 && (mm_ok(min, max) ==> le_max(min_of(min), max_of(max))) && forall|i: int| 0 <= i < expressions@.len() ==> te_ok((#[trigger] expressions@[i]).te),
    }
}
/// tc is the constraint numbered j of the expression numbered from n
pub open spec fn con_at(te: TripleExpr, n: nat, j: nat, tc: TripleExpr) -> bool decreases te {
    match te {
        TripleExpr::TripleConstraint { .. } => j == n && tc == te,
        TripleExpr::Ref(_) => false,
        TripleExpr::EachOf { expressions, .. } => exists|i: int| 0 <= i < expressions@.len() && con_at((#[trigger] expressions@[i]).te, n + size_upto(te, i as nat), j, tc),
        TripleExpr::OneOf { expressions, .. } => exists|i: int| 0 <= i < expressions@.len() && con_at((#[trigger] expressions@[i]).te, n + size_upto(te, i as nat), j, tc),
    }
}
pub open spec fn tc_pred(tc: TripleExpr) -> Pred { mk_pred(tc->predicate->Iri_0, !(tc->inverse == Some(true))) }
/// the table has the key and the condition of every constraint
pub open spec fn has_cons(te: TripleExpr, n: nat, t: RbeTable) -> bool {
    forall|j: nat, tc: TripleExpr| #[trigger] con_at(te, n, j, tc) ==> n <= j < t.component_counter && t.component_key@[comp(j)] == tc_pred(tc) && vc(tc->value_expr, tc->TripleConstraint_sem_acts, t.component_cond@[comp(j)])
}
pub open spec fn grown(o: RbeTable, t: RbeTable) -> bool {
    tab_ok(t) && o.component_counter <= t.component_counter && t.rbe == o.rbe && t.open == o.open
    && forall|j: nat| j < o.component_counter ==> t.component_key@[#[trigger] comp(j)] == o.component_key@[comp(j)] && t.component_cond@[comp(j)] == o.component_cond@[comp(j)]
}
pub open spec fn den(te: TripleExpr, n: nat, e: Rbe) -> bool { forall|m: MS| #[trigger] lang(e, m) <==> te_lang(te, n, m) }
pub open spec fn sym_range(e: Rbe, a: nat, b: nat) -> bool { forall|k: Key| #[trigger] syms(e, k) ==> exists|j: nat| a <= j < b && k == #[trigger] comp(j) }
pub open spec fn rs_good(s: RbeStruct) -> bool { rs_ok(s) && wf(s.rbe) && nofail(s.rbe) }
// ---- the compiled group denotes the group when its members do ----
pub open spec fn kids_den(te: TripleExpr, n: nat, v: Seq<Rbe>) -> bool { v.len() == exprs(te).len() && forall|i: int| 0 <= i < v.len() ==> den(exprs(te)[i].te, n + size_upto(te, i as nat), #[trigger] v[i]) }
pub proof fn lemma_each(te: TripleExpr, n: nat, v: Vec<Rbe>, i: nat, m: MS)
    requires kids_den(te, n, v@), i <= v@.len(),
    ensures lang_and(v, i, m) <==> te_each(te, i, n, m),
    decreases v@.len() - i,
{
    if i < v@.len() {
        let e = v@[i as int]; assert(den(exprs(te)[i as int].te, n + size_upto(te, i), e));
        if lang_and(v, i, m) { let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(v@[i as int], a) && lang_and(v, i + 1, b); lemma_each(te, n, v, i + 1, b); assert(te_nth(te, i, n, a)); }
        if te_each(te, i, n, m) { let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && te_nth(te, i, n, a) && te_each(te, i + 1, n, b); lemma_each(te, n, v, i + 1, b); assert(lang(e, a)); }
    }
}
pub open spec fn body_den(te: TripleExpr, n: nat, e: Rbe) -> bool { forall|m: MS| #[trigger] lang(e, m) <==> te_body(te, n, m) }
pub proof fn lemma_one(te: TripleExpr, n: nat, values: Vec<Rbe>, m: MS)
    requires te is OneOf, kids_den(te, n, values@),
    ensures te_body(te, n, m) <==> exists|i: int| 0 <= i < values@.len() && lang(#[trigger] values@[i], m),
{
    if exists|i: int| 0 <= i < values@.len() && lang(#[trigger] values@[i], m) { let i = choose|i: int| 0 <= i < values@.len() && lang(#[trigger] values@[i], m); assert(den(exprs(te)[i].te, n + size_upto(te, i as nat), values@[i])); assert(tn(i as nat) && te_nth(te, i as nat, n, m)); }
    if te_body(te, n, m) { assert(exists|i: nat| i < exprs(te).len() && #[trigger] tn(i) && te_nth(te, i, n, m)); let i = choose|i: nat| i < exprs(te).len() && #[trigger] tn(i) && te_nth(te, i, n, m); assert(den(exprs(te)[i as int].te, n + size_upto(te, i), values@[i as int])); assert(lang(values@[i as int], m)); }
}
pub proof fn lemma_body(te: TripleExpr, n: nat, e: Rbe)
    requires te is EachOf && e is And && kids_den(te, n, e->And_values@) || te is OneOf && e is Or && kids_den(te, n, e->Or_values@),
    ensures body_den(te, n, e),
{
    assert forall|m: MS| #[trigger] lang(e, m) <==> te_body(te, n, m) by {
        match e {
            Rbe::And { values } => { lemma_each(te, n, values, 0, m); }
            Rbe::Or { values } => { lemma_one(te, n, values, m); assert(lang(e, m) <==> exists|i: int| 0 <= i < values@.len() && lang(#[trigger] values@[i], m)); }
            _ => {}
        }
    }
}
pub proof fn lemma_pow_den(te: TripleExpr, n: nat, e: Rbe, k: nat, m: MS)
    requires body_den(te, n, e),
    ensures lang_pow(e, k, m) <==> te_pow(te, n, k, m),
    decreases k,
{
    if k > 0 {
        if lang_pow(e, k, m) { let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, (k - 1) as nat, b); lemma_pow_den(te, n, e, (k - 1) as nat, b); assert(te_body(te, n, a)); }
        if te_pow(te, n, k, m) { let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && te_body(te, n, a) && te_pow(te, n, (k - 1) as nat, b); lemma_pow_den(te, n, e, (k - 1) as nat, b); assert(lang(e, a)); }
    }
}
pub proof fn lemma_group_den(te: TripleExpr, n: nat, e: Rbe, c: Cardinality, g: Rbe)
    requires body_den(te, n, e), te is EachOf || te is OneOf, c.min.value == min_of(te_min(te)), c.max == max_of(te_max(te)), forall|m: MS| #[trigger] lang(g, m) <==> group_has(e, c, m),
    ensures den(te, n, g),
{
    assert forall|m: MS| #[trigger] lang(g, m) <==> te_lang(te, n, m) by {
        if group_has(e, c, m) { let k = choose|k: nat| card_has(c, k as int) && #[trigger] tn(k) && lang_pow(e, k, m); lemma_pow_den(te, n, e, k, m); assert(mm_has(te_min(te), te_max(te), k as int) && tn(k) && te_pow(te, n, k, m)); }
        if te_lang(te, n, m) { let k = choose|k: nat| mm_has(te_min(te), te_max(te), k as int) && #[trigger] tn(k) && te_pow(te, n, k, m); lemma_pow_den(te, n, e, k, m); assert(card_has(c, k as int) && tn(k) && lang_pow(e, k, m)); }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TripleExprLabel { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &TripleExprLabel) -> bool { *self == *other } }
impl PartialEq for TripleExprLabel { #[verifier::external_body] fn eq(&self, other: &TripleExprLabel) -> (r: bool) { unimplemented!() } }
impl Clone for TripleExprLabel { #[verifier::external_body] fn clone(&self) -> (r: TripleExprLabel) ensures r == *self { unimplemented!() } }
impl Clone for TripleExpr { #[verifier::external_body] fn clone(&self) -> (r: TripleExpr) ensures r == *self { unimplemented!() } }
pub open spec fn built(te: TripleExpr, o: RbeTable, t: RbeTable, s: RbeStruct) -> bool {
    let n = o.component_counter as nat;
    grown(o, t) && t.component_counter == n + te_size(te) && has_cons(te, n, t) && den(te, n, s.rbe) && rs_good(s) && sym_range(s.rbe, n, n + te_size(te))
}
pub proof fn lemma_size(te: TripleExpr, i: nat)
    requires i <= exprs(te).len(), te is EachOf || te is OneOf,
    ensures size_upto(te, i) <= te_size(te), i < exprs(te).len() ==> size_upto(te, i + 1) == size_upto(te, i) + te_size(exprs(te)[i as int].te) && size_upto(te, i + 1) <= te_size(te),
    decreases exprs(te).len() - i,
{ if i < exprs(te).len() { lemma_size(te, i + 1); } }
pub proof fn lemma_grown(te: TripleExpr, n: nat, o: RbeTable, t: RbeTable)
    requires has_cons(te, n, o), grown(o, t),
    ensures has_cons(te, n, t),
{
    assert forall|j: nat, tc: TripleExpr| #[trigger] con_at(te, n, j, tc) implies n <= j < t.component_counter && t.component_key@[comp(j)] == tc_pred(tc) && vc(tc->value_expr, tc->TripleConstraint_sem_acts, t.component_cond@[comp(j)]) by {
        assert(t.component_key@[comp(j)] == o.component_key@[comp(j)]);
    }
}
/// the members compiled so far
pub open spec fn part(te: TripleExpr, o: RbeTable, t: RbeTable, cs: Seq<RbeStruct>, i: nat) -> bool {
    let n = o.component_counter as nat;
    i <= exprs(te).len() && cs.len() == i && grown(o, t) && t.component_counter == n + size_upto(te, i)
    && (forall|j: int| 0 <= j < i ==> rs_good(#[trigger] cs[j]) && den(exprs(te)[j].te, n + size_upto(te, j as nat), cs[j].rbe) && sym_range(cs[j].rbe, n, t.component_counter as nat) && has_cons(exprs(te)[j].te, n + size_upto(te, j as nat), t))
}
pub proof fn lemma_part(te: TripleExpr, o: RbeTable, t: RbeTable, cs: Seq<RbeStruct>, i: nat, u: RbeTable, c: RbeStruct)
    requires part(te, o, t, cs, i), i < exprs(te).len(), te is EachOf || te is OneOf, built(exprs(te)[i as int].te, t, u, c),
    ensures part(te, o, u, cs.push(c), i + 1),
{
    let n = o.component_counter as nat; let ds = cs.push(c);
    lemma_size(te, i);
    assert forall|j: int| 0 <= j < i + 1 implies rs_good(#[trigger] ds[j]) && den(exprs(te)[j].te, n + size_upto(te, j as nat), ds[j].rbe) && sym_range(ds[j].rbe, n, u.component_counter as nat) && has_cons(exprs(te)[j].te, n + size_upto(te, j as nat), u) by {
        if j < i { assert(ds[j] == cs[j]); lemma_grown(exprs(te)[j].te, n + size_upto(te, j as nat), t, u);
            assert forall|k: Key| #[trigger] syms(ds[j].rbe, k) implies exists|q: nat| n <= q < u.component_counter && k == #[trigger] comp(q) by { assert(sym_range(cs[j].rbe, n, t.component_counter as nat)); let q = choose|q: nat| n <= q < t.component_counter && k == #[trigger] comp(q); assert(n <= q < u.component_counter && k == comp(q)); } }
        else { assert(ds[j] == c); assert forall|k: Key| #[trigger] syms(c.rbe, k) implies exists|q: nat| n <= q < u.component_counter && k == #[trigger] comp(q) by { let q = choose|q: nat| t.component_counter <= q < t.component_counter + te_size(exprs(te)[i as int].te) && k == #[trigger] comp(q); assert(n <= q < u.component_counter && k == comp(q)); } }
    }
    assert forall|j: nat| j < o.component_counter implies u.component_key@[#[trigger] comp(j)] == o.component_key@[comp(j)] && u.component_cond@[comp(j)] == o.component_cond@[comp(j)] by { assert(t.component_key@[comp(j)] == o.component_key@[comp(j)]); }
}
pub open spec fn kids_of(te: TripleExpr, e: Rbe, cs: Seq<RbeStruct>) -> bool {
    match e {
        Rbe::And { values } => te is EachOf && values@.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> values@[i] == (#[trigger] cs[i]).rbe,
        Rbe::Or { values } => te is OneOf && values@.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> values@[i] == (#[trigger] cs[i]).rbe,
        _ => false,
    }
}
pub proof fn lemma_kids(te: TripleExpr, o: RbeTable, t: RbeTable, cs: Seq<RbeStruct>, e: Rbe)
    requires part(te, o, t, cs, exprs(te).len()), kids_of(te, e, cs), te_ok(te),
    ensures wf(e), nofail(e), body_den(te, o.component_counter as nat, e), sym_range(e, o.component_counter as nat, t.component_counter as nat),
{
    let n = o.component_counter as nat;
    let v = match e { Rbe::And { values } => values@, Rbe::Or { values } => values@, _ => seq![] };
    assert forall|i: int| 0 <= i < v.len() implies wf(#[trigger] v[i]) && nofail(v[i]) && den(exprs(te)[i].te, n + size_upto(te, i as nat), v[i]) && sym_range(v[i], n, t.component_counter as nat) by { assert(v[i] == cs[i].rbe); assert(rs_good(cs[i])); }
    lemma_body(te, n, e);
    assert forall|k: Key| #[trigger] syms(e, k) implies exists|q: nat| n <= q < t.component_counter && k == #[trigger] comp(q) by {
        match e { Rbe::And { values } => { let i = choose|i: int| 0 <= i < values@.len() && syms(#[trigger] values@[i], k); assert(sym_range(v[i], n, t.component_counter as nat)); }
            Rbe::Or { values } => { let i = choose|i: int| 0 <= i < values@.len() && syms(#[trigger] values@[i], k); assert(sym_range(v[i], n, t.component_counter as nat)); } _ => {} }
    }
}
pub proof fn lemma_whole(te: TripleExpr, o: RbeTable, t: RbeTable, cs: Seq<RbeStruct>, c: Cardinality)
    requires part(te, o, t, cs, exprs(te).len()), te_ok(te), te is EachOf || te is OneOf, mm_ok(te_min(te), te_max(te)), c.min.value == min_of(te_min(te)), c.max == max_of(te_max(te)),
    ensures forall|e: Rbe| kids_of(te, e, cs) ==> #[trigger] wf(e), forall|e: Rbe| kids_of(te, e, cs) ==> #[trigger] nofail(e), le_max(c.min.value as int, c.max),
        forall|e: Rbe, s: RbeStruct| kids_of(te, e, cs) && #[trigger] grp_eq(s.rbe, e, c) && same_syms(s.rbe, e) && rs_good(s) ==> built(te, o, t, s),
        forall|j: int| 0 <= j < cs.len() ==> rs_ok(#[trigger] cs[j]),
{
    let n = o.component_counter as nat;
    assert forall|e: Rbe| kids_of(te, e, cs) implies #[trigger] wf(e) by { lemma_kids(te, o, t, cs, e); }
    assert forall|e: Rbe| kids_of(te, e, cs) implies #[trigger] nofail(e) by { lemma_kids(te, o, t, cs, e); }
    assert forall|j: int| 0 <= j < cs.len() implies rs_ok(#[trigger] cs[j]) by { assert(rs_good(cs[j])); }
    lemma_size(te, exprs(te).len());
    assert forall|e: Rbe, s: RbeStruct| kids_of(te, e, cs) && #[trigger] grp_eq(s.rbe, e, c) && same_syms(s.rbe, e) && rs_good(s) implies built(te, o, t, s) by {
        lemma_kids(te, o, t, cs, e);
        lemma_group_den(te, n, e, c, s.rbe);
        assert forall|k: Key| #[trigger] syms(s.rbe, k) implies exists|q: nat| n <= q < t.component_counter && k == #[trigger] comp(q) by { assert(syms(e, k)); }
        assert(te_size(te) == size_upto(te, exprs(te).len()));
        assert forall|j: nat, tc: TripleExpr| #[trigger] con_at(te, n, j, tc) implies n <= j < t.component_counter && t.component_key@[comp(j)] == tc_pred(tc) && vc(tc->value_expr, tc->TripleConstraint_sem_acts, t.component_cond@[comp(j)]) by {
            match te {
                TripleExpr::EachOf { expressions, .. } => { let i = choose|i: int| 0 <= i < expressions@.len() && con_at((#[trigger] expressions@[i]).te, n + size_upto(te, i as nat), j, tc); assert(rs_good(cs[i])); assert(has_cons(exprs(te)[i].te, n + size_upto(te, i as nat), t)); }
                TripleExpr::OneOf { expressions, .. } => { let i = choose|i: int| 0 <= i < expressions@.len() && con_at((#[trigger] expressions@[i]).te, n + size_upto(te, i as nat), j, tc); assert(rs_good(cs[i])); assert(has_cons(exprs(te)[i].te, n + size_upto(te, i as nat), t)); }
                _ => {}
            }
        }
    }
}
@erase-method ok_or_else fn:vx_irr
pub fn vx_irr<T>(o: Option<T>) -> (r: CResult<T>) ensures r is Ok <==> o is Some, r is Ok ==> r->Ok_0 == o->Some_0 { match o { Some(x) => Ok(x), None => Err(Box::new(irerr())) } }
pub assume_specification<T: PartialEq> [ <[T]>::contains ] (s: &[T], x: &T) -> (r: bool);
@known cnv_sem_actions
@known sem_acts_to_conds
@known value_expr2match_cond
@fn AST2IR::triple_expr2rbe_with_refs r
    requires te_ok(*$1), tab_ok(*old($3)), old($3).component_counter + te_size(*$1) <= usize::MAX,
    ensures r is Ok ==> built(*$1, *old($3), *final($3), r->Ok_0),
    decreases *$1,
@attrs #[verifier::loop_isolation(false)]
@letty cs Vec<RbeStruct>
@start
    let ghost vx_o = *$3;
    proof { axiom_comp(); if exprs(*$1).len() > 0 { lemma_size(*$1, 0); } }
@loop 0
    invariant part(*$1, vx_o, *$3, cs@, $i as nat), exprs(*$1) == $c@,
@loopstart 0
    let ghost vx_b = *$3; let ghost vx_k = cs@;
    proof { lemma_size(*$1, $i as nat); kid_dec(*$1, $i as int); }
@loopend 0
    proof { lemma_part(*$1, vx_o, vx_b, vx_k, ($i - 1) as nat, *$3, c); }
@loop 1
    invariant part(*$1, vx_o, *$3, cs@, $i as nat), exprs(*$1) == $c@,
@loopstart 1
    let ghost vx_b = *$3; let ghost vx_k = cs@;
    proof { lemma_size(*$1, $i as nat); kid_dec(*$1, $i as int); }
@loopend 1
    proof { lemma_part(*$1, vx_o, vx_b, vx_k, ($i - 1) as nat, *$3, c); }
@afterlet card
    proof { lemma_whole(*$1, vx_o, *$3, cs@, card); }
@endfn
@fn AST2IR::triple_expr2rbe r
    requires te_ok(*$1), tab_ok(*old($3)), old($3).component_counter + te_size(*$1) <= usize::MAX,
    ensures r is Ok ==> built(*$1, *old($3), *final($3), r->Ok_0),
@letty visited_refs Vec<TripleExprLabel>
@endfn
// ---- the theorem: a neighbourhood is accepted by the compiled table exactly when it is a bag of the expression's constraints ----
pub proof fn lemma_con(te: TripleExpr, n: nat, j: nat)
    requires n <= j < n + te_size(te),
    ensures exists|tc: TripleExpr| #[trigger] con_at(te, n, j, tc),
    decreases te, 1nat, 0nat,
{
    match te {
        TripleExpr::TripleConstraint { .. } => { assert(con_at(te, n, j, te)); }
        TripleExpr::Ref(_) => {}
        _ => { lemma_con_upto(te, n, j, exprs(te).len()); }
    }
}
pub proof fn lemma_con_upto(te: TripleExpr, n: nat, j: nat, i: nat)
    requires i <= exprs(te).len(), te is EachOf || te is OneOf, n <= j < n + size_upto(te, i),
    ensures exists|tc: TripleExpr| #[trigger] con_at(te, n, j, tc),
    decreases te, 0nat, i,
{
    if i > 0 {
        let k = (i - 1) as nat;
        if j < n + size_upto(te, k) { lemma_con_upto(te, n, j, k); }
        else {
            kid_dec(te, k as int);
            lemma_con(exprs(te)[k as int].te, n + size_upto(te, k), j);
            let tc = choose|tc: TripleExpr| #[trigger] con_at(exprs(te)[k as int].te, n + size_upto(te, k), j, tc);
            match te { TripleExpr::EachOf { expressions, .. } => { assert(con_at(expressions@[k as int].te, n + size_upto(te, k), j, tc)); } TripleExpr::OneOf { expressions, .. } => { assert(con_at(expressions@[k as int].te, n + size_upto(te, k), j, tc)); } _ => {} }
            assert(con_at(te, n, j, tc));
        }
    }
}
/// triple i of the neighbourhood is taken by constraint number d[i].0
pub type Dist = Seq<(nat, TripleExpr)>;
pub open spec fn dist_at(te: TripleExpr, v: Triple, typ: ISet<(Node, ShapeLabelIdx)>, p: (nat, TripleExpr)) -> bool {
    con_at(te, 0, p.0, p.1) && tc_pred(p.1) == v.0 && ve_ok(p.1->value_expr, p.1->TripleConstraint_sem_acts, v.1, v.2)
    && forall|s: ShapeLabelIdx| #[trigger] ve_refs(p.1->value_expr, s) ==> typ.contains((v.1, s))
}
pub open spec fn d_keys(d: Dist) -> Seq<Key> { d.map_values(|p: (nat, TripleExpr)| comp(p.0)) }
pub open spec fn te_dist(te: TripleExpr, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>, d: Dist) -> bool {
    d.len() == vs.len() && (forall|i: int| 0 <= i < d.len() ==> dist_at(te, vs[i], typ, #[trigger] d[i])) && te_lang(te, 0, d_keys(d).to_multiset())
}
pub open spec fn te_sat(te: TripleExpr, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>) -> bool { exists|d: Dist| #[trigger] te_dist(te, vs, typ, d) }
pub open spec fn compiled(te: TripleExpr, o: RbeTable, u: RbeTable, s: RbeStruct, t: RbeTable) -> bool {
    o.component_counter == 0 && !o.open && built(te, o, u, s) && t.rbe == s && t.key_components == u.key_components && t.component_cond == u.component_cond && t.component_key == u.component_key && t.component_counter == u.component_counter && t.open == u.open
}
pub open spec fn pick(te: TripleExpr, c: Choice) -> (nat, TripleExpr) { choose|p: (nat, TripleExpr)| comp(p.0) == c.3 && #[trigger] con_at(te, 0, p.0, p.1) }
pub proof fn lemma_pick(te: TripleExpr, o: RbeTable, u: RbeTable, s: RbeStruct, t: RbeTable, v: Triple, typ: ISet<(Node, ShapeLabelIdx)>, c: Choice)
    requires compiled(te, o, u, s, t), choice_of(t, v, c), c_ok(c), forall|x: ShapeLabelIdx| #[trigger] mc_refs(c.4, x) ==> typ.contains((v.1, x)),
    ensures dist_at(te, v, typ, pick(te, c)), comp(pick(te, c).0) == c.3,
{
    assert(tab_keys(u, v.0, c.3)); assert(u.component_key@.dom().contains(c.3));
    let n = choose|n: nat| c.3 == #[trigger] comp(n);
    assert(n < u.component_counter);
    lemma_con(te, 0, n);
    let tc = choose|tc: TripleExpr| #[trigger] con_at(te, 0, n, tc);
    let q = (n, tc);
    assert(comp(q.0) == c.3 && con_at(te, 0, q.0, q.1));
    let p = pick(te, c);
    assert(comp(p.0) == c.3 && con_at(te, 0, p.0, p.1));
    assert(vc(p.1->value_expr, p.1->TripleConstraint_sem_acts, u.component_cond@[comp(p.0)]));
    assert(mc_ok(c.4, v.1, v.2));
    assert forall|x: ShapeLabelIdx| #[trigger] ve_refs(p.1->value_expr, x) implies typ.contains((v.1, x)) by { assert(mc_refs(c.4, x)); }
}
pub proof fn thm_compiled(te: TripleExpr, o: RbeTable, u: RbeTable, s: RbeStruct, t: RbeTable, vs: Seq<Triple>, typ: ISet<(Node, ShapeLabelIdx)>)
    requires compiled(te, o, u, s, t),
    ensures t_wf(t), sat(t, vs, typ) <==> te_sat(te, vs, typ),
{
    assert forall|k: Key| #[trigger] syms(s.rbe, k) implies t.component_key@.dom().contains(k) by { let j = choose|j: nat| 0 <= j < 0 + te_size(te) && k == #[trigger] comp(j); assert(u.component_key@.dom().contains(comp(j))); }
    assert forall|k: Pred, c: Key| #[trigger] tab_keys(t, k, c) <==> t.component_key@.dom().contains(c) && t.component_key@[c] == k by { assert(tab_keys(t, k, c) == tab_keys(u, k, c)); }
    if sat(t, vs, typ) {
        let c = choose|c: Seq<Choice>| good(t, vs, typ, c);
        let d = Seq::new(c.len(), |i: int| pick(te, c[i]));
        assert forall|i: int| 0 <= i < d.len() implies dist_at(te, vs[i], typ, #[trigger] d[i]) && comp(d[i].0) == c[i].3 by {
            assert(choice_of(t, vs[i], c[i])); assert(c_ok(c[i]));
            assert forall|x: ShapeLabelIdx| #[trigger] mc_refs(c[i].4, x) implies typ.contains((vs[i].1, x)) by { assert(pend(c[i].4, c[i].1).contains((vs[i].1, x))); assert(pend_of(c).contains((vs[i].1, x))); }
            lemma_pick(te, o, u, s, t, vs[i], typ, c[i]);
        }
        assert(d_keys(d) =~= keys_of(c));
        assert(restrict(keys_of(c).to_multiset(), t.open, syms_set(t.rbe.rbe)) == keys_of(c).to_multiset());
        assert(te_dist(te, vs, typ, d));
    }
    if te_sat(te, vs, typ) {
        let d = choose|d: Dist| #[trigger] te_dist(te, vs, typ, d);
        let c = Seq::new(d.len(), |i: int| (vs[i].0, vs[i].1, vs[i].2, comp(d[i].0), t.component_cond@[comp(d[i].0)]));
        assert forall|i: int| 0 <= i < vs.len() implies choice_of(t, vs[i], #[trigger] c[i]) && c_ok(c[i]) by {
            assert(dist_at(te, vs[i], typ, d[i]));
            assert(u.component_key@.dom().contains(comp(d[i].0)));
            assert(tab_keys(u, vs[i].0, comp(d[i].0)));
            assert(tab_keys(t, vs[i].0, comp(d[i].0)));
            assert(vc(d[i].1->value_expr, d[i].1->TripleConstraint_sem_acts, u.component_cond@[comp(d[i].0)]));
        }
        assert(d_keys(d) =~= keys_of(c));
        assert(restrict(keys_of(c).to_multiset(), t.open, syms_set(t.rbe.rbe)) == keys_of(c).to_multiset());
        assert forall|p: (Node, ShapeLabelIdx)| #[trigger] pend_of(c).contains(p) implies typ.contains(p) by {
            let i = choose|i: int| 0 <= i < c.len() && pend((#[trigger] c[i]).4, c[i].1).contains(p);
            assert(dist_at(te, vs[i], typ, d[i]));
            assert(vc(d[i].1->value_expr, d[i].1->TripleConstraint_sem_acts, u.component_cond@[comp(d[i].0)]));
            assert(mc_refs(c[i].4, p.1));
        }
        assert(good(t, vs, typ, c));
    }
}
