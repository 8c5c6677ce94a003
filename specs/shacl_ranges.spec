@file shacl/src/ir/components/min_length.rs
@type struct MinLength
@fn MinLength::min_length r
    ensures r == self.min_length,
@endfn
/// too short: blank nodes never satisfy a length constraint
pub open spec fn bad_min_length(m: int, v: Term) -> bool {
    if t_bnode(v) { true } else if t_iri(v) { n_chars(iri_text(iri_of_term(v))) < m } else if t_lit(v) { n_chars(lit_text(lit_of_term(v))) < m } else { true }
}
@file shacl/src/validator/constraints/core/string_based/min_length.rs
@fn MinLength@NativeValidator::validate_native r
    requires self.min_length >= 0,
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_min_length(self.min_length as int, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_min_length
@closure 0
    -> (r: bool) ensures r == bad_min_length(self.min_length as int, *vn)
@loop 0
    invariant $acc == $i,
@loop 1
    invariant $acc == $i,
@endfn
@file shacl/src/ir/components/max_length.rs
@type struct MaxLength
@fn MaxLength::max_length r
    ensures r == self.max_length,
@endfn
/// too long: blank nodes never satisfy a length constraint
pub open spec fn bad_max_length(m: int, v: Term) -> bool {
    if t_bnode(v) { true } else if t_iri(v) { n_chars(iri_text(iri_of_term(v))) > m } else if t_lit(v) { n_chars(lit_text(lit_of_term(v))) > m } else { true }
}
@file shacl/src/validator/constraints/core/string_based/max_length.rs
@fn MaxLength@NativeValidator::validate_native r
    requires self.max_length >= 0,
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_max_length(self.max_length as int, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_max_length
@closure 0
    -> (r: bool) ensures r == bad_max_length(self.max_length as int, *vn)
@loop 0
    invariant $acc == $i,
@loop 1
    invariant $acc == $i,
@endfn
@file shacl/src/ir/components/min_inclusive.rs
@type struct MinInclusive
@fn MinInclusive::min_inclusive r
    ensures *r == self.min_inclusive,
@endfn
/// not a literal, not comparable, or on the wrong side of the bound
pub open spec fn bad_min_inclusive(m: ConcreteLiteral, v: Term) -> bool {
    match slit_of_term(v) { Some(l) => match slit_cmp(l, m) { Some(o) => o == core::cmp::Ordering::Less, None => true }, None => true }
}
@file shacl/src/validator/constraints/core/value_range/min_inclusive.rs
@fn MinInclusive@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_min_inclusive(self.min_inclusive, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_min_inclusive
@optmap
@closure 0
    -> (r: bool) ensures r == bad_min_inclusive(self.min_inclusive, *n)
@endfn
@file shacl/src/ir/components/min_exclusive.rs
@type struct MinExclusive
@fn MinExclusive::min_exclusive r
    ensures *r == self.min_exclusive,
@endfn
/// not a literal, not comparable, or on the wrong side of the bound
pub open spec fn bad_min_exclusive(m: ConcreteLiteral, v: Term) -> bool {
    match slit_of_term(v) { Some(l) => match slit_cmp(l, m) { Some(o) => o != core::cmp::Ordering::Greater, None => true }, None => true }
}
@file shacl/src/validator/constraints/core/value_range/min_exclusive.rs
@fn MinExclusive@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_min_exclusive(self.min_exclusive, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_min_exclusive
@optmap
@closure 0
    -> (r: bool) ensures r == bad_min_exclusive(self.min_exclusive, *n)
@endfn
@file shacl/src/ir/components/max_inclusive.rs
@type struct MaxInclusive
@fn MaxInclusive::max_inclusive r
    ensures *r == self.max_inclusive,
@endfn
/// not a literal, not comparable, or on the wrong side of the bound
pub open spec fn bad_max_inclusive(m: ConcreteLiteral, v: Term) -> bool {
    match slit_of_term(v) { Some(l) => match slit_cmp(l, m) { Some(o) => o == core::cmp::Ordering::Greater, None => true }, None => true }
}
@file shacl/src/validator/constraints/core/value_range/max_inclusive.rs
@fn MaxInclusive@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_max_inclusive(self.max_inclusive, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_max_inclusive
@optmap
@closure 0
    -> (r: bool) ensures r == bad_max_inclusive(self.max_inclusive, *n)
@endfn
@file shacl/src/ir/components/max_exclusive.rs
@type struct MaxExclusive
@fn MaxExclusive::max_exclusive r
    ensures *r == self.max_exclusive,
@endfn
/// not a literal, not comparable, or on the wrong side of the bound
pub open spec fn bad_max_exclusive(m: ConcreteLiteral, v: Term) -> bool {
    match slit_of_term(v) { Some(l) => match slit_cmp(l, m) { Some(o) => o != core::cmp::Ordering::Less, None => true }, None => true }
}
@file shacl/src/validator/constraints/core/value_range/max_exclusive.rs
@fn MaxExclusive@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_max_exclusive(self.max_exclusive, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_max_exclusive
@optmap
@closure 0
    -> (r: bool) ensures r == bad_max_exclusive(self.max_exclusive, *n)
@endfn
#[verifier::external_body] pub struct RDFRegex { x: u64 }
pub uninterp spec fn re_match(x: RDFRegex, t: Text) -> bool;
@subst-type str Text
impl RDFRegex {
    #[verifier::external_body] pub fn is_match(&self, t: &Text) -> (r: bool) ensures r == re_match(*self, *t) { unimplemented!() }
}
@file shacl/src/ir/components/pattern.rs
@type struct Pattern
@fn Pattern::regex r
    ensures *r == self.regex,
@endfn
@fn Pattern::match_str r
    ensures r == re_match(self.regex, *$1),
@argty 1 &Text
@endfn
/// blank nodes never match; other nodes by their string
pub open spec fn bad_pattern(p: RDFRegex, v: Term) -> bool { t_bnode(v) || !re_match(p, node_text(v)) }
@file shacl/src/validator/constraints/core/string_based/pattern.rs
@fn Pattern@NativeValidator::validate_native r
    ensures r is Ok, r->Ok_0@ == viols::<ValueNodeIteration>($5@, |f: Term, v: Term| bad_pattern(self.regex, v), *$1, *$2, $7),
@argty 4 &mut EngineX
@rename validate_pattern
@closure 0
    -> (r: bool) ensures r == bad_pattern(self.regex, *vn)
@endfn
