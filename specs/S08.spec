// unit: shape expressions over the contracts of S07
@include prelude.spec
@include-contracts arith_core.spec
@include rbe_types.spec
@include-contracts rbe_deriv.spec
@include-contracts rbe_deriv_fns.spec
@include-contracts rbe_match_fns.spec
@include-contracts rbe_interval.spec
@include-contracts rbe_interval_fns.spec
@include-contracts rbe_struct.spec
@include-contracts shex_table.spec
@include shex_shape.spec
}
fn main() {}
