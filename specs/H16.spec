@include prelude.spec
@include shacl_core.spec
@include-contracts shacl_apply.spec
@include shacl_terms.spec
@include shacl_values.spec
}
fn main() {}
