// ---- value sets: what each kind of value admits ----
@file shex_ast/src/ir/exclusion.rs
@type enum LiteralExclusion
@type enum IriExclusion
@type enum LanguageExclusion
@file shex_ast/src/ir/object_value.rs
@type enum ObjectValue
@file shex_ast/src/ir/value_set_value.rs
@type enum IriOrWildcard
@type enum StringOrWildcard
@type enum LangOrWildcard
@type enum ValueSetValue
@file shex_ast/src/ir/value_set.rs
@type struct ValueSet

/// same literal term: compared by kind, lexical form, datatype and language tag
pub open spec fn same_lit(a: ConcreteLiteral, b: ConcreteLiteral) -> bool {
    match (a, b) {
        (ConcreteLiteral::StringLiteral { lexical_form: x, lang: l }, ConcreteLiteral::StringLiteral { lexical_form: y, lang: m }) => x@ == y@ && l == m,
        (ConcreteLiteral::DatatypeLiteral { lexical_form: x, datatype: d }, ConcreteLiteral::DatatypeLiteral { lexical_form: y, datatype: e }) => x@ == y@ && d == e,
        (ConcreteLiteral::WrongDatatypeLiteral { lexical_form: x, datatype: d, .. }, ConcreteLiteral::WrongDatatypeLiteral { lexical_form: y, datatype: e, .. }) => x@ == y@ && d == e,
        (ConcreteLiteral::NumericLiteral(x), ConcreteLiteral::NumericLiteral(y)) => num_eq(x, y),
        (ConcreteLiteral::DatetimeLiteral(x), ConcreteLiteral::DatetimeLiteral(y)) => x == y,
        (ConcreteLiteral::BooleanLiteral(x), ConcreteLiteral::BooleanLiteral(y)) => x == y,
        _ => false,
    }
}
@file rudof_rdf/src/rdf_core/term/literal/literal.rs
@fn ConcreteLiteral::match_literal r
    ensures r == same_lit(*self, *$1),
@endfn
@fn ConcreteLiteral::lang r
    ensures r == (match *self { ConcreteLiteral::StringLiteral { lang: Some(l), .. } => Some(l), _ => None }),
@endfn
@file rudof_rdf/src/rdf_core/term/triple.rs
@fn Object::lang r
    ensures r == (match tag_of(*self) { Some(l) => Some(&l), None => None }),
@endfn
pub open spec fn ov_has(v: ObjectValue, o: Object) -> bool {
    match (v, o) { (ObjectValue::IriRef(i), Object::Iri(j)) => i == j, (ObjectValue::ObjectLiteral(a), Object::Literal(b)) => same_lit(b, a), _ => false }
}
@file shex_ast/src/ir/object_value.rs
@fn ObjectValue::match_value r
    ensures r == ov_has(*self, *$1),
@endfn
pub open spec fn starts(t: Text, p: Text) -> bool { p@.is_prefix_of(t@) }
/// the subtags of the stem are the first subtags of the tag, ignoring case
pub open spec fn lang_in(stem: Text, tag: Text) -> bool {
    let (a, b) = (parts(stem@, '-'), parts(tag@, '-'));
    a.len() <= b.len() && forall|k: int| 0 <= k < a.len() ==> same_nocase((#[trigger] a[k])@, b[k]@)
}
@file shex_ast/src/ir/value_set_value.rs
@fn lang_stem_matches r
    ensures r == lang_in(*$1, *$2),
@argty 1 &Text
@argty 2 &Text
@loop 0
    invariant $acc ==> forall|k: int| 0 <= k < $i ==> same_nocase((#[trigger] parts($1@, '-')[k])@, parts($2@, '-')[k]@),
        !$acc ==> !lang_in(*$1, *$2),
@attrs #[verifier::loop_isolation(false)]
@endfn
pub open spec fn iri_ex(e: IriExclusion, o: Object) -> bool {
    match o { Object::Iri(i) => match e { IriExclusion::Iri(j) => i == j, IriExclusion::IriStem(s) => starts(iri_text(i), iri_text(s)) }, _ => false }
}
pub open spec fn lit_ex(e: LiteralExclusion, o: Object) -> bool {
    match o { Object::Literal(l) => match e { LiteralExclusion::Literal(s) => lex(l)@ == s@, LiteralExclusion::LiteralStem(s) => starts(lex(l), s) }, _ => false }
}
pub open spec fn lang_ex(e: LanguageExclusion, o: Object) -> bool {
    match tag_of(o) { Some(l) => match e { LanguageExclusion::Language(m) => l == m, LanguageExclusion::LanguageStem(s) => lang_in(lang_text(s), lang_text(l)) }, None => false }
}
pub open spec fn no_iri_ex(e: Seq<IriExclusion>, n: int, o: Object) -> bool { forall|k: int| 0 <= k < n ==> !iri_ex(#[trigger] e[k], o) }
pub open spec fn no_lit_ex(e: Seq<LiteralExclusion>, n: int, o: Object) -> bool { forall|k: int| 0 <= k < n ==> !lit_ex(#[trigger] e[k], o) }
pub open spec fn no_lang_ex(e: Seq<LanguageExclusion>, n: int, o: Object) -> bool { forall|k: int| 0 <= k < n ==> !lang_ex(#[trigger] e[k], o) }
/// the node is one of the terms the value stands for
pub open spec fn vs_has(v: ValueSetValue, o: Object) -> bool {
    match v {
        ValueSetValue::ObjectValue(x) => ov_has(x, o),
        ValueSetValue::IriStem { stem } => (o matches Object::Iri(i) && starts(iri_text(i), iri_text(stem))),
        ValueSetValue::LiteralStem { stem } => (o matches Object::Literal(l) && starts(lex(l), stem)),
        ValueSetValue::Language { language_tag } => tag_of(o) == Some(language_tag),
        ValueSetValue::LanguageStem { stem } => match tag_of(o) { Some(l) => match stem { LangOrWildcard::Lang(s) => lang_in(lang_text(s), lang_text(l)), _ => true }, None => false },
        ValueSetValue::IriStemRange { stem, exclusions } =>
            (match stem { IriOrWildcard::Iri(s) => (o matches Object::Iri(i) && starts(iri_text(i), iri_text(s))), _ => true }) && (match exclusions { Some(e) => no_iri_ex(e@, e@.len() as int, o), None => true }),
        ValueSetValue::LiteralStemRange { stem, exclusions } =>
            (match stem { StringOrWildcard::String(s) => (o matches Object::Literal(l) && starts(lex(l), s)), _ => true }) && (match exclusions { Some(e) => no_lit_ex(e@, e@.len() as int, o), None => true }),
        ValueSetValue::LanguageStemRange { stem, exclusions } =>
            (match stem { LangOrWildcard::Lang(s) => match tag_of(o) { Some(l) => lang_in(lang_text(s), lang_text(l)), None => false }, _ => true }) && (match exclusions { Some(e) => no_lang_ex(e@, e@.len() as int, o), None => true }),
    }
}
@fn ValueSetValue::match_value r
    ensures r == vs_has(*self, *$1),
@start
    proof { assert forall|a: IriS, b: IriS| (iri_text(a)@ == iri_text(b)@) <==> a == b by { axiom_iri(a, b); } }
@loop 0
    invariant no_iri_ex($c@, $i as int, *$1), forall|a: IriS, b: IriS| (iri_text(a)@ == iri_text(b)@) <==> a == b,
@loop 1
    invariant no_lit_ex($c@, $i as int, *$1),
@loop 2
    invariant no_lang_ex($c@, $i as int, *$1),
@optmap
@attrs #[verifier::loop_isolation(false)]
@endfn
@file shex_ast/src/ir/value_set.rs
@fn ValueSet::check_value r
    ensures r == exists|k: int| 0 <= k < self.values@.len() && vs_has(#[trigger] self.values@[k], *$1),
@loop 0
    invariant $c@ == self.values@, $acc == (exists|k: int| 0 <= k < $i && vs_has(#[trigger] self.values@[k], *$1)),
@attrs #[verifier::loop_isolation(false)]
@endfn
