// unit: shapes that depend on themselves through a negation
@include prelude.spec
@include shex_negation.spec
}
fn main() {}
