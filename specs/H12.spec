@include prelude.spec
@include shacl_core.spec
@include shacl_apply.spec
@include shacl_counts.spec
}
fn main() {}
