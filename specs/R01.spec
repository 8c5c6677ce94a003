@include prelude.spec
@include arith_core.spec
@include rbe_types.spec
@include rbe_deriv.spec
@include rbe_deriv_fns.spec
@include rbe_match_fns.spec
}
fn main() {}
