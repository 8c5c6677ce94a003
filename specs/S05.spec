@include prelude.spec
@include shex_num_opaque.spec
@include shex_terms.spec
@include shex_values.spec
}
fn main() {}
