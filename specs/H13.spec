@include prelude.spec
@include shacl_core.spec
@include shacl_logic.spec
}
fn main() {}
