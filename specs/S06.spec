@include prelude.spec
@include shex_terms.spec
@include shex_numbers.spec
@include shex_values.spec
@include shex_facets.spec
@include shex_conds.spec
}
fn main() {}
