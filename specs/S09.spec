// unit: recursive schemas
@include prelude.spec
@include shex_recursion.spec
}
fn main() {}
