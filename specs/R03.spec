// unit: feasibility over the lemmas of the interval unit
@include prelude.spec
@include-contracts arith_core.spec
@include rbe_types.spec
@include-contracts rbe_deriv.spec
@include-contracts rbe_deriv_fns.spec
@include-contracts rbe_match_fns.spec
@include-contracts rbe_interval.spec
@include-contracts rbe_interval_fns.spec
@include rbe_feas.spec
}
fn main() {}
