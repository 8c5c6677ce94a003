// unit: the triple constraints of a table, listed one by one
@include prelude.spec
@include-contracts arith_core.spec
@include rbe_types.spec
@include-contracts rbe_deriv.spec
@include-contracts rbe_deriv_fns.spec
@include-contracts rbe_match_fns.spec
@include-contracts rbe_interval.spec
@include-contracts rbe_interval_fns.spec
@include-contracts rbe_struct.spec
@include shex_engine_opaque.spec
@include-contracts shex_table.spec
@include shex_components.spec
}
fn main() {}
