// unit: what a shape refers to and mentions, through operators, references and EXTENDS
@include prelude.spec
@include shex_references.spec
}
fn main() {}
