@include prelude.spec
@include shacl_core.spec
@include-contracts shacl_apply.spec
@include shacl_terms.spec
@include shacl_ranges.spec
}
fn main() {}
