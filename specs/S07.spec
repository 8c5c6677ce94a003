// unit: distribution of a neighbourhood over the triple constraints, over the contracts of R01/R02
@include prelude.spec
@include-contracts arith_core.spec
@include rbe_types.spec
@include-contracts rbe_deriv.spec
@include-contracts rbe_deriv_fns.spec
@include-contracts rbe_match_fns.spec
@include-contracts rbe_interval.spec
@include-contracts rbe_interval_fns.spec
@include-contracts rbe_struct.spec
@include shex_engine_opaque.spec
@include shex_table.spec
@include shex_compile.spec
}
fn main() {}
