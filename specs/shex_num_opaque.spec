// numbers as an opaque type
#[verifier::external_body] #[derive(Debug)] pub struct NumericLiteral { x: u64 }
