@include prelude.spec
@include shacl_base.spec
@include shacl_shape.spec
}
fn main() {}
