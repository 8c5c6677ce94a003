@subst-type Lang Lang
// ---- sh:nodeKind, sh:in, sh:hasValue, sh:class, sh:datatype, sh:languageIn, sh:uniqueLang, sh:closed ----
@remap-method not fn:vx_not
@iter-result triples_with_subject
@iter-via class_objs vx_items
@erase-method map_err self
@remap-method contains vx_contains
@remap-method unwrap_or_default fn:vx_or_empty
@subst-type HashSet IriSet
@subst-type HashMap LangMap
@map-ident langs_map
pub fn vx_not(b: bool) -> (r: bool) ensures r == !b { !b }
pub trait VxContains<T> { spec fn vx_has(&self, t: T) -> bool; fn vx_contains(&self, t: &T) -> (r: bool) ensures r == self.vx_has(*t); }
impl VxContains<Term> for Vec<Term> { open spec fn vx_has(&self, t: Term) -> bool { self@.contains(t) } #[verifier::external_body] fn vx_contains(&self, t: &Term) -> bool { unimplemented!() } }
#[verifier::external_body] pub struct TermSet { x: u64 }
impl View for TermSet { type V = ISet<Term>; uninterp spec fn view(&self) -> ISet<Term>; }
impl TermSet {
    #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<Term>) ensures forall|x: Term| r@.contains(x) <==> self@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
}
impl VxContains<Term> for TermSet { open spec fn vx_has(&self, t: Term) -> bool { self@.contains(t) } #[verifier::external_body] fn vx_contains(&self, t: &Term) -> bool { unimplemented!() } }

// sh:nodeKind
@file shacl/src/types/node_kind.rs
@type enum NodeKind
@file shacl/src/ir/components/node_kind.rs
@type struct Nodekind
@fn Nodekind::node_kind r
    ensures *r == self.node_kind,
@endfn
pub open spec fn kind_ok(k: NodeKind, v: Term) -> bool {
    match k {
        NodeKind::Iri => t_iri(v), NodeKind::Lit => t_lit(v), NodeKind::BNode => t_bnode(v),
        NodeKind::BNodeOrIri => t_bnode(v) || t_iri(v), NodeKind::BNodeOrLit => t_bnode(v) || t_lit(v), NodeKind::IriOrLit => t_iri(v) || t_lit(v),
    }
}
@file shacl/src/validator/constraints/core/value/node_kind.rs
@fn Nodekind@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| !kind_ok(self.node_kind, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_node_kind
@start
    proof { assert forall|t: Term| !(t_bnode(t) && t_iri(t)) && !(t_bnode(t) && t_lit(t)) && !(t_iri(t) && t_lit(t)) by { axiom_kinds(t); } }
@closure 0
    -> (r: bool) ensures r == !kind_ok(self.node_kind, *vn)
@endfn

// sh:in and sh:hasValue
@file shacl/src/ir/components/in_component.rs
@type struct In
@fn In::values r
    ensures *r == self.values,
@endfn
/// one of the listed values
pub open spec fn in_ok(vs: Seq<Object>, v: Term) -> bool { exists|k: int| 0 <= k < vs.len() && term_of(#[trigger] vs[k]) == v }
@file shacl/src/validator/constraints/core/other/in_constraint.rs
@fn In@Validator::validate r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| !in_ok(self.values@, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_in
@closure 0
    -> (r: bool) ensures r == !in_ok(self.values@, *vn)
@loop 0
    invariant $acc@.len() == $i, $c@ == self.values@, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == term_of($c@[k]),
@loopafter 0
    proof { assert forall|t: Term| $acc@.contains(t) <==> in_ok($c@, t) by {
        if $acc@.contains(t) { let k = choose|k: int| 0 <= k < $acc@.len() && $acc@[k] == t; assert(term_of($c@[k]) == t); }
        if in_ok($c@, t) { let k = choose|k: int| 0 <= k < $c@.len() && term_of(#[trigger] $c@[k]) == t; assert($acc@[k] == t); } } }
@collect 0 Vec::<Term> push
@attrs #[verifier::loop_isolation(false)]
@endfn
@file shacl/src/ir/components/has_value.rs
@type struct HasValue
@fn HasValue::value r
    ensures *r == self.value,
@endfn
@file shacl/src/validator/constraints/core/other/has_value.rs
@iter-via t vx_items
@fn HasValue@Validator::validate r
    ensures r is Ok, r->Ok_0@ == viols::<FocusNodeIteration>($5@, |f: Term, t: FocusNodes| !t@.contains(term_of(self.value)), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_has_value
@closure 0
    -> (r: bool) ensures r == !t@.contains(term_of(self.value))
@loop 0
    invariant $c@ == t@, !$acc ==> forall|k: int| 0 <= k < $i ==> #[trigger] $c@[k] != term_of(self.value), $acc ==> $c@.contains(term_of(self.value)),
@attrs #[verifier::loop_isolation(false)]
@endfn

// sh:class: some type of the node is the class or one of its (transitive) subclasses
@file shacl/src/ir/components/class.rs
@type struct Class
@fn Class::class_rule r
    ensures *r == self.class_rule,
@endfn
@remap-path RdfVocab::rdf_type vx_rdf_type
@remap-path RdfsVocab::rdfs_subclass_of_str vx_subclass_of
pub uninterp spec fn sp_rdf_type() -> IriS;
pub uninterp spec fn sp_subclass_of() -> IriS;
pub uninterp spec fn path_iri(i: IriS) -> SHACLPath;
pub uninterp spec fn path_star(p: SHACLPath) -> SHACLPath;
/// the objects of a node for a predicate, and the nodes a path leads to (H19)
pub uninterp spec fn objs(s: Store, t: Term, p: IriS) -> ISet<Term>;
pub uninterp spec fn reach(s: Store, t: Term, p: SHACLPath) -> ISet<Term>;
#[verifier::external_body] pub fn vx_rdf_type() -> (r: IriS) ensures r == sp_rdf_type() { unimplemented!() }
#[verifier::external_body] pub fn vx_subclass_of() -> (r: IriS) ensures r == sp_subclass_of() { unimplemented!() }
impl SHACLPath {
    #[verifier::external_body] pub fn iri(i: IriS) -> (r: SHACLPath) ensures r == path_iri(i) { unimplemented!() }
    #[verifier::external_body] pub fn zero_or_more(p: SHACLPath) -> (r: SHACLPath) ensures r == path_star(p) { unimplemented!() }
}
#[verifier::external_body] pub struct Triple { x: u64 }
pub uninterp spec fn tr_pred(t: Triple) -> IriS;
pub uninterp spec fn tr_obj(t: Triple) -> Term;
pub uninterp spec fn triples_s(s: Store, f: Subj) -> Seq<Triple>;
impl Triple { #[verifier::external_body] pub fn into_components(&self) -> (r: (Subj, IriS, Term)) ensures r.1 == tr_pred(*self), r.2 == tr_obj(*self) { unimplemented!() } }
impl IriS { #[verifier::external_body] pub fn into(self) -> (r: IriS) ensures r == self { unimplemented!() } }
impl Store {
    #[verifier::external_body] pub fn objects_for(&self, t: &Term, p: &IriS) -> (r: Result<TermSet, ValidationError>) ensures r is Ok ==> r->Ok_0@ == objs(*self, *t, *p), r is Err ==> objs(*self, *t, *p) == ISet::<Term>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn objects_for_shacl_path(&self, t: &Term, p: &SHACLPath) -> (r: Result<TermSet, ValidationError>) ensures r is Ok ==> r->Ok_0@ == reach(*self, *t, *p), r is Err ==> reach(*self, *t, *p) == ISet::<Term>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn triples_with_subject(&self, f: &Subj) -> (r: Result<Vec<Triple>, ValidationError>) ensures r is Ok, r->Ok_0@ == triples_s(*self, *f) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_or_empty(r: Result<TermSet, ValidationError>) -> (s: TermSet) ensures r is Ok ==> s == r->Ok_0, r is Err ==> s@ == ISet::<Term>::empty() { unimplemented!() }
pub open spec fn instance(st: Store, v: Term, c: Term) -> bool { exists|k: Term| #[trigger] objs(st, v, sp_rdf_type()).contains(k) && reach(st, k, path_star(path_iri(sp_subclass_of()))).contains(c) }
@file shacl/src/validator/constraints/core/value/class.rs
@iter-via vx_or_empty() vx_items
@iter-via unwrap_or_default() vx_items
@fn is_instance r
    ensures r == instance(*$1, *$2, *$3),
@generics
@argty 1 &Store
@argty 2 &Term
@argty 3 &Term
@loop 0
    invariant forall|t: Term| $c@.contains(t) <==> objs(*$1, *$2, sp_rdf_type()).contains(t),
        !$acc ==> forall|k: int| 0 <= k < $i ==> !reach(*$1, #[trigger] $c@[k], path_star(path_iri(sp_subclass_of()))).contains(*$3),
        $acc ==> instance(*$1, *$2, *$3),
@loopend 0
    proof { assert($c@.contains($c@[$i - 1])); assert(objs(*$1, *$2, sp_rdf_type()).contains($c@[$i - 1])); }
@loopafter 0
    proof { if instance(*$1, *$2, *$3) { let k = choose|k: Term| #[trigger] objs(*$1, *$2, sp_rdf_type()).contains(k) && reach(*$1, k, path_star(path_iri(sp_subclass_of()))).contains(*$3);
        assert($c@.contains(k)); let j = choose|j: int| 0 <= j < $c@.len() && $c@[j] == k; assert($c@[j] == k); } }
@attrs #[verifier::loop_isolation(false)]
@endfn
@fn Class@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| t_lit(v) || !instance(*$3, v, term_of(self.class_rule)), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_class
@start
    let ghost vx_st = $3;
@closure 0
    -> (r: bool) ensures r == (t_lit(*vn) || !instance(*$3, *vn, term_of(self.class_rule)))
@endfn

// sh:datatype
@remap-path TryInto::<ConcreteLiteral>::try_into vx_concrete
@remap-path TryInto::try_into vx_concrete
@file rudof_rdf/src/rdf_core/term/literal/literal.rs
#[verifier::external_body] pub struct DtRef { x: u64 }
pub uninterp spec fn dt_of(l: Lit) -> DtRef;
pub uninterp spec fn dt_iri(d: DtRef) -> IriS;
pub uninterp spec fn concrete_of(l: Lit) -> Option<ConcreteLiteral>;
impl Lit {
    #[verifier::external_body] pub fn datatype(&self) -> (r: DtRef) ensures r == dt_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn lang(&self) -> (r: Option<Lang>) ensures r == lang_of(*self) { unimplemented!() }
}
impl Clone for Lit { #[verifier::external_body] fn clone(&self) -> (r: Lit) ensures r == *self { unimplemented!() } }
impl DtRef { #[verifier::external_body] pub fn get_iri(&self) -> (r: Result<&IriS, ValidationError>) ensures r is Ok, *r->Ok_0 == dt_iri(*self) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Text { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Text) -> bool { self@ == other@ } }
impl PartialEq for Text { #[verifier::external_body] fn eq(&self, other: &Text) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn vx_concrete(l: Lit) -> (r: Result<ConcreteLiteral, ValidationError>) ensures r is Ok <==> concrete_of(l) is Some, r is Ok ==> Some(r->Ok_0) == concrete_of(l) { unimplemented!() }
/// a literal of exactly that datatype whose lexical form belongs to it
pub open spec fn dt_ok(d: IriS, v: Term) -> bool {
    t_lit(v) && concrete_of(lit_of_term(v)) is Some && !(concrete_of(lit_of_term(v))->Some_0 is WrongDatatypeLiteral) && iri_text(dt_iri(dt_of(lit_of_term(v))))@ == iri_text(d)@
}
@file shacl/src/ir/components/datatype.rs
@type struct Datatype
@fn Datatype::datatype r
    ensures *r == self.datatype,
@endfn
@file shacl/src/validator/constraints/core/value/datatype.rs
@fn Datatype@Validator::validate r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| !dt_ok(self.datatype, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_datatype
@closure 0
    -> (r: bool) ensures r == !dt_ok(self.datatype, *vn)
@endfn

// sh:languageIn: the language tag is in a listed range (RFC 4647 basic filtering), ignoring case
#[verifier::external_body] pub struct Lang { x: u64 }
pub uninterp spec fn lang_of(l: Lit) -> Option<Lang>;
pub uninterp spec fn lang_str(l: Lang) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
impl Lang { #[verifier::external_body] pub fn to_string(&self) -> (r: Text) ensures r@ == lang_str(*self) { unimplemented!() } }
impl Text {
    #[verifier::external_body] pub fn to_lowercase(&self) -> (r: Text) ensures r@ == lower(self@) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, p: &Text) -> (r: bool) ensures r == p@.is_prefix_of(self@) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_show(t: &Text) -> (r: Text) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body] pub fn vx_text(s: &str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: Text, b: Text) -> (r: Text) ensures r@ == a@ + b@ { unimplemented!() }
pub open spec fn range_ok(tag: Lang, range: Lang) -> bool { lower(lang_str(tag)) == lower(lang_str(range)) || (lower(lang_str(range)) + "-"@).is_prefix_of(lower(lang_str(tag))) }
pub open spec fn langin_ok(ls: Seq<Lang>, v: Term) -> bool {
    t_lit(v) && lang_of(lit_of_term(v)) is Some && exists|k: int| 0 <= k < ls.len() && range_ok(lang_of(lit_of_term(v))->Some_0, #[trigger] ls[k])
}
@file shacl/src/ir/components/language_in.rs
@type struct LanguageIn
@fn LanguageIn::langs r
    ensures *r == self.langs,
@endfn
@file shacl/src/validator/constraints/core/string_based/language_in.rs
@fn LanguageIn@Validator::validate r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| !langin_ok(self.langs@, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@argty 6 &Text
@rename validate_language_in
@fmt
@closure 0
    -> (r: bool) ensures r == !langin_ok(self.langs@, *vn)
@loop 0
    invariant $c@ == self.langs@, !$acc ==> forall|k: int| 0 <= k < $i ==> !range_ok(lang, #[trigger] $c@[k]), $acc ==> exists|k: int| 0 <= k < $c@.len() && range_ok(lang, #[trigger] $c@[k]),
@attrs #[verifier::loop_isolation(false)]
@endfn

// sh:uniqueLang: no two value nodes of a focus node with the same language tag
#[verifier::external_body] pub struct LangMap { x: u64 }
impl View for LangMap { type V = Map<Seq<char>, Seq<Term>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<Term>>; }
impl LangMap {
    #[verifier::external_body] pub fn new() -> (r: LangMap) ensures r@ == Map::<Seq<char>, Seq<Term>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_push_at(&mut self, k: Text, t: Term)
        ensures final(self)@ == old(self)@.insert(k@, if old(self)@.dom().contains(k@) { old(self)@[k@].push(t) } else { seq![t] }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_entries(&self) -> (r: Vec<(Text, Vec<Term>)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0@) && self@[r@[i].0@] == r@[i].1@,
            forall|k: Seq<char>| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k { unimplemented!() }
}
pub open spec fn tag_of(v: Term) -> Option<Seq<char>> { if t_lit(v) && lang_of(lit_of_term(v)) is Some { Some(lang_str(lang_of(lit_of_term(v))->Some_0)) } else { None } }
/// the value nodes before j with a given tag
pub open spec fn n_tag(ns: Seq<Term>, j: int, k: Seq<char>) -> int
    decreases j
{ if j <= 0 { 0 } else { n_tag(ns, j - 1, k) + if tag_of(ns[j - 1]) == Some(k) { 1int } else { 0 } } }
pub open spec fn dup_tag(ns: Seq<Term>) -> bool { exists|k: Seq<char>| #[trigger] n_tag(ns, ns.len() as int, k) > 1 }
pub open spec fn cnt_at(m: Map<Seq<char>, Seq<Term>>, k: Seq<char>) -> int { if m.dom().contains(k) { m[k].len() as int } else { 0 } }
pub proof fn lemma_uniq_step(vn: Seq<(Term, FocusNodes)>, i: int, comp: Object, sh: IRShape, path: Option<&SHACLPath>)
    requires 0 <= i < vn.len()
    ensures forall|x: ValidationResult| #[trigger] uniq_res(vn, i + 1, comp, sh, path, x) <==> uniq_res(vn, i, comp, sh, path, x) || (dup_tag(vn[i].1@) && x == vresult(vn[i].0, comp, sh, path, None))
{ }
pub open spec fn uniq_res(vn: Seq<(Term, FocusNodes)>, i: int, comp: Object, sh: IRShape, path: Option<&SHACLPath>, x: ValidationResult) -> bool {
    exists|k: int| 0 <= k < i && dup_tag((#[trigger] vn[k]).1@) && x == vresult(vn[k].0, comp, sh, path, None)
}
pub proof fn lemma_push_contains<A>(s: Seq<A>, a: A)
    ensures forall|x: A| #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a
{ assert forall|x: A| #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a by {
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(a)[i] == x); }
    assert(s.push(a)[s.len() as int] == a); } }
@file shacl/src/ir/components/unique_lang.rs
@type struct UniqueLang
@fn UniqueLang::unique_lang r
    ensures r == self.unique_lang,
@endfn
@remap-path Default::default Vec::new
@file shacl/src/validator/constraints/core/string_based/unique_lang.rs
@fn UniqueLang@Validator::validate r
    ensures r is Ok, forall|x: ValidationResult| #[trigger] r->Ok_0@.contains(x) <==> self.unique_lang && uniq_res($5@, $5@.len() as int, obj_of_iri(iri_of(*$1)), *$2, $7, x),
@argty 4 &mut EngineX
@rename validate_unique_lang
@start
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant $c@ == $5@, forall|x: ValidationResult| #[trigger] validation_results@.contains(x) <==> uniq_res($c@, $i as int, vx_co, *$2, $7, x),
@loop 1
    invariant $c@ == nodes@, forall|k: Seq<char>| #[trigger] n_tag($c@, $i as int, k) == cnt_at(langs_map@, k),
@loopstart 1
    let ghost vx_m = langs_map@;
@loopend 1
    proof { assert forall|k: Seq<char>| #[trigger] n_tag($c@, $i as int, k) == cnt_at(langs_map@, k) by { assert(n_tag($c@, $i - 1, k) == cnt_at(vx_m, k)); } }
@loop 2
    invariant
        forall|x: ValidationResult| #[trigger] validation_results@.contains(x) <==> uniq_res($c@0@, $i@0 - 1, vx_co, *$2, $7, x) || (x == vresult(*fnode, vx_co, *$2, $7, None) && exists|j: int| 0 <= j < $i && (#[trigger] $c@[j]).1@.len() > 1),
@loopstart 2
    let ghost vx_o = validation_results@;
@loopend 2
    proof { lemma_push_contains(vx_o, vresult(*fnode, vx_co, *$2, $7, None)); assert($c@[$i - 1].1@.len() > 1 || true); }
@loopafter 2
    proof {
        assert((exists|j: int| 0 <= j < $c@.len() && (#[trigger] $c@[j]).1@.len() > 1) <==> dup_tag(nodes@)) by {
            if dup_tag(nodes@) { let k = choose|k: Seq<char>| #[trigger] n_tag(nodes@, nodes@.len() as int, k) > 1; assert(cnt_at(vx_lm, k) > 1); assert(vx_lm.dom().contains(k));
                let j = choose|j: int| 0 <= j < $c@.len() && (#[trigger] $c@[j]).0@ == k; assert($c@[j].1@.len() > 1); }
            if exists|j: int| 0 <= j < $c@.len() && (#[trigger] $c@[j]).1@.len() > 1 { let j = choose|j: int| 0 <= j < $c@.len() && (#[trigger] $c@[j]).1@.len() > 1;
                assert(cnt_at(vx_lm, $c@[j].0@) > 1); assert(n_tag(nodes@, nodes@.len() as int, $c@[j].0@) > 1); }
        }
        lemma_uniq_step($c@0@, $i@0 - 1, vx_co, *$2, $7);
    }
@loopbefore 2
    let ghost vx_lm = langs_map@;
@attrs #[verifier::loop_isolation(false)]
@endfn

// sh:closed
@file shacl/src/types/closed_info.rs
#[verifier::external_body] pub struct IriSet { x: u64 }
impl View for IriSet { type V = ISet<IriS>; uninterp spec fn view(&self) -> ISet<IriS>; }
impl VxContains<IriS> for IriSet { open spec fn vx_has(&self, t: IriS) -> bool { self@.contains(t) } #[verifier::external_body] fn vx_contains(&self, t: &IriS) -> bool { unimplemented!() } }
pub uninterp spec fn allowed(s: IRShape) -> ISet<IriS>;
impl IRShape { #[verifier::external_body] pub fn allowed_properties(&self) -> (r: IriSet) ensures r@ == allowed(*self) { unimplemented!() } }
@file shacl/src/ir/components/closed.rs
@type struct Closed
@fn Closed::is_closed r
    ensures r == self.is_closed,
@endfn
pub open spec fn closed_in(e: Seq<ValidationResult>, f: Term, ts: Seq<Triple>, k: int, comp: Object, sh: IRShape) -> Seq<ValidationResult>
    decreases k
{
    if k <= 0 { e }
    else {
        let p = closed_in(e, f, ts, k - 1, comp, sh);
        if !allowed(sh).contains(tr_pred(ts[k - 1])) { p.push(vresult(f, comp, sh, Some(&path_iri(tr_pred(ts[k - 1]))), Some(obj_of(tr_obj(ts[k - 1]))))) } else { p }
    }
}
pub open spec fn closed_all(st: Store, vn: Seq<(Term, FocusNodes)>, i: int, comp: Object, sh: IRShape) -> Seq<ValidationResult>
    decreases i
{
    if i <= 0 { Seq::empty() }
    else {
        let e = closed_all(st, vn, i - 1, comp, sh);
        let f = vn[i - 1].0;
        if t_lit(f) { e } else { closed_in(e, f, triples_s(st, subj_of(f)), triples_s(st, subj_of(f)).len() as int, comp, sh) }
    }
}
@file shacl/src/validator/constraints/core/other/closed.rs
@fn Closed@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == (if self.is_closed { closed_all(*$3, $5@, $5@.len() as int, obj_of_iri(iri_of(*$1)), *$2) } else { Seq::empty() }),
@argty 4 &mut EngineX
@rename validate_closed
@start
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant $c@ == $5@, results@ == closed_all(*$3, $c@, $i as int, vx_co, *$2),
@loop 1
    invariant $c@ == triples_s(*$3, subj_of(*fnode)), results@ == closed_in(closed_all(*$3, $c@0@, $i@0 - 1, vx_co, *$2), *fnode, $c@, $i as int, vx_co, *$2),
@attrs #[verifier::loop_isolation(false)]
@endfn
