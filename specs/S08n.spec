// unit: the neighbourhood of a node, from the triples of the graph
@include prelude.spec
@include shex_neighs.spec
}
fn main() {}
