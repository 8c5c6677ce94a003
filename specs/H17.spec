@include prelude.spec
@include shacl_core.spec
@include shacl_targets.spec
}
fn main() {}
