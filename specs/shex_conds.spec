// ---- conditions: single, reference to a shape, conjunction; and their construction from a node constraint ----
@file rbe/src/match_cond.rs
@drop-ident _phantom
@erase-method with_name self
@type struct SingleCond drop=_phantom
@type enum MatchCond
pub type Cond = MatchCond;
impl Clone for MatchCond { #[verifier::external_body] fn clone(&self) -> (r: MatchCond) ensures r == *self { unimplemented!() } }
impl Clone for ValueSet { #[verifier::external_body] fn clone(&self) -> (r: ValueSet) ensures r == *self { unimplemented!() } }
impl Clone for NodeKind { #[verifier::external_body] fn clone(&self) -> (r: NodeKind) ensures r == *self { unimplemented!() } }
/// the condition holds of the node, references aside
pub open spec fn mc_ok(m: MatchCond, o: Object, c: SemanticActionContext) -> bool decreases m {
    match m {
        MatchCond::Single(s) => match s.kind { Some(k) => cond_ok(k, o, c), None => true },
        MatchCond::Ref(_) => true,
        MatchCond::And(vs) => forall|i: int| 0 <= i < vs@.len() ==> mc_ok(#[trigger] vs@[i], o, c),
    }
}
/// shapes the node has to conform to besides
pub open spec fn mc_refs(m: MatchCond, s: ShapeLabelIdx) -> bool decreases m {
    match m {
        MatchCond::Single(_) => false,
        MatchCond::Ref(r) => r == s,
        MatchCond::And(vs) => exists|i: int| 0 <= i < vs@.len() && mc_refs(#[trigger] vs@[i], s),
    }
}
pub open spec fn refs_upto(vs: Seq<MatchCond>, n: int, s: ShapeLabelIdx) -> bool { exists|i: int| 0 <= i < n && mc_refs(#[trigger] vs[i], s) }
@fn SingleCond::new r
    ensures r.kind is None,
@endfn
@fn SingleCond::with_kind r
    ensures r.kind == Some($1),
@endfn
@fn SingleCond::matches r
    requires !($1.node is Triple),
    ensures r is Ok <==> mc_ok(MatchCond::Single(*self), $1.node, *$2), r is Ok ==> r->Ok_0@ == Set::<(Object, ShapeLabelIdx)>::empty(),
@endfn
@fn MatchCond::matches r
    requires !($1.node is Triple),
    ensures r is Ok <==> mc_ok(*self, $1.node, *$2),
        r is Ok ==> forall|o: Object, s: ShapeLabelIdx| r->Ok_0@.contains((o, s)) <==> o == $1.node && mc_refs(*self, s),
    decreases *self,
@loop 0
    invariant forall|k: int| 0 <= k < $i ==> mc_ok(#[trigger] $c@[k], $1.node, *$2),
        forall|o: Object, s: ShapeLabelIdx| vx_tf0@.contains((o, s)) <==> o == $1.node && refs_upto($c@, $i as int, s),
        *self == MatchCond::And(*$c),
@loopend 0
    proof { assert forall|o: Object, s: ShapeLabelIdx| vx_tf0@.contains((o, s)) <==> o == $1.node && refs_upto($c@, $i as int, s) by {
        if refs_upto($c@, $i as int - 1, s) { let w = choose|w: int| 0 <= w < $i - 1 && mc_refs(#[trigger] $c@[w], s); assert(mc_refs($c@[w], s)); }
        if refs_upto($c@, $i as int, s) { let w = choose|w: int| 0 <= w < $i && mc_refs(#[trigger] $c@[w], s); if w < $i - 1 { assert(refs_upto($c@, $i as int - 1, s)); } }
        assert(mc_refs($c@[$i - 1], s) ==> refs_upto($c@, $i as int, s)); } }
@attrs #[verifier::loop_isolation(false)]
@endfn
@fn MatchCond::and r
    ensures r == MatchCond::And($1),
@endfn
@fn MatchCond::ref_ res
    ensures res == MatchCond::Ref($1),
@endfn
@fn MatchCond::single r
    ensures r == MatchCond::Single($1),
@endfn
@fn MatchCond::empty r
    ensures r == MatchCond::Single(r->Single_0), r->Single_0.kind is None,
@endfn

// ---- compiling a node constraint ----
@file shex_ast/src/ast/xs_facet.rs
@type struct Pattern
@type enum StringFacet
@type enum NumericFacet
@type enum XsFacet
@fn Pattern::regex r
    ensures *r == self.str,
@endfn
@fn Pattern::flags r
    ensures match self.flags { Some(f) => r == Some(&f), None => r is None },
@endfn
pub open spec fn re_holds(regex: Seq<char>, flags: Option<Seq<char>>, o: Object) -> bool { re_valid(pat_src(regex, flags)) && re_matches(pat_src(regex, flags), pat_text(o)) }
pub open spec fn facet_ok(f: XsFacet, o: Object) -> bool {
    match f {
        XsFacet::StringFacet(StringFacet::Length(n)) => n_chars(o) == n,
        XsFacet::StringFacet(StringFacet::MinLength(n)) => n_chars(o) >= n,
        XsFacet::StringFacet(StringFacet::MaxLength(n)) => n_chars(o) <= n,
        XsFacet::StringFacet(StringFacet::Pattern(p)) => re_holds(p.str@, flags_of(p.flags), o),
        XsFacet::NumericFacet(NumericFacet::MinInclusive(n)) => num_of(o) is Some && is_le(num_cmp(n, num_of(o)->Some_0)),
        XsFacet::NumericFacet(NumericFacet::MinExclusive(n)) => num_of(o) is Some && is_lt(num_cmp(n, num_of(o)->Some_0)),
        XsFacet::NumericFacet(NumericFacet::MaxInclusive(n)) => num_of(o) is Some && is_le(num_cmp(num_of(o)->Some_0, n)),
        XsFacet::NumericFacet(NumericFacet::MaxExclusive(n)) => num_of(o) is Some && is_lt(num_cmp(num_of(o)->Some_0, n)),
        XsFacet::NumericFacet(NumericFacet::TotalDigits(n)) => num_of(o) is Some && tdig(num_of(o)->Some_0) is Some && tdig(num_of(o)->Some_0)->Some_0 <= n,
        XsFacet::NumericFacet(NumericFacet::FractionDigits(n)) => num_of(o) is Some && fdig(num_of(o)->Some_0) is Some && fdig(num_of(o)->Some_0)->Some_0 <= n,
    }
}
/// a compiled condition without references that holds exactly of the nodes given
pub open spec fn means(m: MatchCond, p: spec_fn(Object) -> bool) -> bool {
    (forall|o: Object, c: SemanticActionContext| #[trigger] mc_ok(m, o, c) <==> p(o)) && (forall|s: ShapeLabelIdx| !#[trigger] mc_refs(m, s))
}
@file shex_ast/src/ir/ast2ir.rs
pub open spec fn vset_has(vs: ValueSet, o: Object) -> bool { exists|i: int| 0 <= i < vs.values@.len() && vs_has(#[trigger] vs.values@[i], o) }
impl ValueSet { #[verifier::external_body] pub fn show_qualified(&self, p: &PrefixMap) -> (r: Text) { unimplemented!() } }
#[verifier::external_body] pub struct Shown { x: u64 }
impl Shown { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: Text) { unimplemented!() } }
impl PrefixMap { #[verifier::external_body] pub fn qualify(&self, i: &IriS) -> (r: Shown) { unimplemented!() } }
impl Clone for PrefixMap { #[verifier::external_body] fn clone(&self) -> (r: PrefixMap) ensures r == *self { unimplemented!() } }
@fn mk_cond_length r
    ensures means(r, |o: Object| n_chars(o) == $1),
@endfn
@fn mk_cond_min_length r
    ensures means(r, |o: Object| n_chars(o) >= $1),
@endfn
@fn mk_cond_max_length r
    ensures means(r, |o: Object| n_chars(o) <= $1),
@endfn
@fn mk_cond_min_inclusive r
    ensures means(r, |o: Object| facet_ok(XsFacet::NumericFacet(NumericFacet::MinInclusive($1)), o)),
@endfn
@fn mk_cond_min_exclusive r
    ensures means(r, |o: Object| facet_ok(XsFacet::NumericFacet(NumericFacet::MinExclusive($1)), o)),
@endfn
@fn mk_cond_max_inclusive r
    ensures means(r, |o: Object| facet_ok(XsFacet::NumericFacet(NumericFacet::MaxInclusive($1)), o)),
@endfn
@fn mk_cond_max_exclusive r
    ensures means(r, |o: Object| facet_ok(XsFacet::NumericFacet(NumericFacet::MaxExclusive($1)), o)),
@endfn
@fn mk_cond_total_digits r
    ensures means(r, |o: Object| facet_ok(XsFacet::NumericFacet(NumericFacet::TotalDigits($1)), o)),
@endfn
@fn mk_cond_fraction_digits r
    ensures means(r, |o: Object| facet_ok(XsFacet::NumericFacet(NumericFacet::FractionDigits($1)), o)),
@endfn
@fn mk_cond_nodekind r
    ensures means(r, |o: Object| kind_ok($1, o)),
@endfn
@fn mk_cond_datatype r
    ensures means(r, |o: Object| dt_ok(*$1, o)),
@endfn
@fn mk_cond_value_set r
    ensures means(r, |o: Object| vset_has($1, o)),
@endfn
@fn mk_cond_pattern r
    ensures means(r, |o: Object| re_holds($1@, match $2 { Some(f) => Some(f@), None => None }, o)),
@argty 1 &Text
@argty 2 Option<&Text>
@optmap
@endfn
@fn string_facet_to_match_cond r
    ensures means(r, |o: Object| facet_ok(XsFacet::StringFacet(*$1), o)),
@endfn
@fn numeric_facet_to_match_cond r
    ensures means(r, |o: Object| facet_ok(XsFacet::NumericFacet(*$1), o)),
@endfn
@fn xs_facet2match_cond r
    ensures means(r, |o: Object| facet_ok(*$1, o)),
@endfn
pub open spec fn facets_ok(fs: Seq<XsFacet>, o: Object) -> bool { forall|i: int| 0 <= i < fs.len() ==> facet_ok(#[trigger] fs[i], o) }
pub proof fn lemma_facets(conds: Vec<MatchCond>, fs: Seq<XsFacet>)
    requires conds@.len() == fs.len(), forall|k: int| 0 <= k < fs.len() ==> means(#[trigger] conds@[k], |o: Object| facet_ok(fs[k], o)),
    ensures means(MatchCond::And(conds), |o: Object| facets_ok(fs, o)),
{
    let m = MatchCond::And(conds);
    assert forall|o: Object, c: SemanticActionContext| #[trigger] mc_ok(m, o, c) <==> facets_ok(fs, o) by {
        assert forall|k: int| 0 <= k < fs.len() implies (mc_ok(#[trigger] conds@[k], o, c) <==> facet_ok(fs[k], o)) by { assert(means(conds@[k], |o: Object| facet_ok(fs[k], o))); }
        if facets_ok(fs, o) { assert forall|k: int| 0 <= k < conds@.len() implies mc_ok(#[trigger] conds@[k], o, c) by { assert(facet_ok(fs[k], o)); } }
        if mc_ok(m, o, c) { assert forall|k: int| 0 <= k < fs.len() implies facet_ok(#[trigger] fs[k], o) by { assert(mc_ok(conds@[k], o, c)); } }
    }
    assert forall|s: ShapeLabelIdx| !#[trigger] mc_refs(m, s) by {
        assert forall|k: int| 0 <= k < fs.len() implies !mc_refs(#[trigger] conds@[k], s) by { assert(means(conds@[k], |o: Object| facet_ok(fs[k], o))); }
    }
}
@fn xs_facets2match_cond r
    ensures means(r.0, |o: Object| facets_ok($1@, o)),
@loop 0
    invariant conds@.len() == $i, forall|k: int| 0 <= k < $i ==> means(#[trigger] conds@[k], |o: Object| facet_ok($1@[k], o)),
@loopafter 0
    proof { lemma_facets(conds, $1@); }
@attrs #[verifier::loop_isolation(false)]
@endfn
@fn node_kind2match_cond r
    ensures means(r.0, |o: Object| kind_ok(*$1, o)),
@endfn
/// the IRI of a reference, resolved with the prefixes
pub uninterp spec fn resolved(r: IriRef, p: PrefixMap) -> Option<IriS>;
#[verifier::external_body] pub fn cnv_iri_ref(i: &IriRef, p: &PrefixMap) -> (r: Result<IriS, Box<SErr>>) ensures r is Ok <==> resolved(*i, *p) is Some, r is Ok ==> Some(r->Ok_0) == resolved(*i, *p) { unimplemented!() }
@known cnv_iri_ref
impl MatchCond { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: Text) { unimplemented!() } }
@fn datatype2match_cond r
    ensures r is Ok <==> resolved(*$1, *$2) is Some, r is Ok ==> means(r->Ok_0.0, |o: Object| dt_ok(resolved(*$1, *$2)->Some_0, o)),
@endfn
@erase-method join vx_opaque_string()
@fn valueset2match_cond r
    ensures means(r.0, |o: Object| vset_has($1, o)),
@endfn
pub open spec fn opts_ok(os: Seq<Option<(MatchCond, Text)>>, o: Object, c: SemanticActionContext) -> bool { forall|i: int| 0 <= i < os.len() && (#[trigger] os[i]) is Some ==> mc_ok(os[i]->Some_0.0, o, c) }
#[verifier::external_body] pub fn options2match_cond(os: Vec<Option<(MatchCond, Text)>>) -> (r: (MatchCond, Text))
    ensures forall|o: Object, c: SemanticActionContext| #[trigger] mc_ok(r.0, o, c) <==> opts_ok(os@, o, c),
        forall|s: ShapeLabelIdx| #[trigger] mc_refs(r.0, s) <==> (exists|i: int| 0 <= i < os@.len() && (#[trigger] os@[i]) is Some && mc_refs(os@[i]->Some_0.0, s)) { unimplemented!() }
@known options2match_cond
@remap-method transpose fn:vx_transpose
pub fn vx_transpose<T, E>(o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures match o { Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e), None => r == Ok::<Option<T>, E>(None) } { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
/// every part of the node constraint holds of the node
pub open spec fn nc_ok(nk: Option<NodeKind>, dt: Option<IriS>, fs: Option<Seq<XsFacet>>, vs: Option<ValueSet>, o: Object) -> bool {
    (nk is Some ==> kind_ok(nk->Some_0, o)) && (dt is Some ==> dt_ok(dt->Some_0, o)) && (fs is Some ==> facets_ok(fs->Some_0, o)) && (vs is Some ==> vset_has(vs->Some_0, o))
}
pub open spec fn dt_iri(d: Option<IriRef>, p: PrefixMap) -> Option<IriS> { match d { Some(d) => resolved(d, p), None => None } }
pub open spec fn vec_opt(v: Option<Vec<XsFacet>>) -> Option<Seq<XsFacet>> { match v { Some(v) => Some(v@), None => None } }
@fn node_constraint2match_cond r
    ensures r is Ok <==> ($2 is Some ==> resolved($2->Some_0, *$5) is Some), r is Ok ==> means(r->Ok_0.0, |o: Object| nc_ok(*$1, dt_iri(*$2, *$5), vec_opt(*$3), *$4, o)),
@optmap
@afterlet os
    proof {
        let ghost p = |o: Object| nc_ok(*$1, dt_iri(*$2, *$5), vec_opt(*$3), *$4, o);
        assert(os@.len() == 4 && os@[0] == c1 && os@[1] == c2 && os@[2] == c3 && os@[3] == c4);
        if c1 is Some { assert(means(c1->Some_0.0, |o: Object| kind_ok($1->Some_0, o))); }
        if c2 is Some { assert(means(c2->Some_0.0, |o: Object| dt_ok(resolved($2->Some_0, *$5)->Some_0, o))); }
        if c3 is Some { assert(means(c3->Some_0.0, |o: Object| facets_ok($3->Some_0@, o))); }
        if c4 is Some { assert(means(c4->Some_0.0, |o: Object| vset_has($4->Some_0, o))); }
        assert forall|o: Object, c: SemanticActionContext| #[trigger] opts_ok(os@, o, c) <==> p(o) by {
            assert((os@[0] is Some ==> mc_ok(os@[0]->Some_0.0, o, c)) && (os@[1] is Some ==> mc_ok(os@[1]->Some_0.0, o, c)) && (os@[2] is Some ==> mc_ok(os@[2]->Some_0.0, o, c)) && (os@[3] is Some ==> mc_ok(os@[3]->Some_0.0, o, c))
                <==> p(o));
        }
    }
@endfn
