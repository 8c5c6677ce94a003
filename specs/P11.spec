@include prelude.spec
@include prefix.spec
@include prefix_map.spec
}
fn main() {}
