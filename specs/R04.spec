@include prelude.spec
@include arith_core.spec
}
fn main() {}
