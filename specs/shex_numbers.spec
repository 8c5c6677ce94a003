// ---- numeric literals: exact values, comparison, digits ----
use core::cmp::Ordering;
@erase-path SchemaIRError::* serr()
/// decimals of the rust_decimal crate: a 96-bit integer divided by a power of ten up to 28
#[verifier::external_body] #[derive(Debug, Clone, Copy)] pub struct Decimal { x: u64 }
pub open spec fn ten(n: nat) -> int decreases n { if n == 0 { 1 } else { 10 * ten((n - 1) as nat) } }
/// value times 10^28
pub uninterp spec fn dval(d: Decimal) -> int;
pub uninterp spec fn dmant(d: Decimal) -> int;
pub uninterp spec fn dscale(d: Decimal) -> int;
pub open spec fn p28() -> int { 10000000000000000000000000000 }
pub open spec fn p96() -> int { 79228162514264337593543950336 }
#[verifier::external_body] pub proof fn axiom_decimal(d: Decimal) ensures -p96() * p28() < dval(d) < p96() * p28() { }
pub open spec fn order(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub open spec fn fits(n: int) -> bool { -p96() < n < p96() }
pub open spec fn of_int(r: Option<Decimal>, n: int) -> bool { (r is Some <==> fits(n)) && (r is Some ==> dval(r->Some_0) == n * p28()) }
pub uninterp spec fn dec_of_f64(f: f64) -> Option<Decimal>;
pub uninterp spec fn dec_of_f32(f: f32) -> Option<Decimal>;
/// the decimal without trailing zeros
pub uninterp spec fn canon(d: Decimal) -> Decimal;
#[verifier::external_body] pub struct DecText { x: u64 }
pub uninterp spec fn dt_of_text(t: DecText) -> Decimal;
pub uninterp spec fn dt_len(t: DecText) -> int;
impl Decimal {
    #[verifier::external_body] pub fn from_i128(n: i128) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_i64(n: i64) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_i16(n: i16) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_i8(n: i8) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_u128(n: u128) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_u64(n: u64) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_u32(n: u32) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_u16(n: u16) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_u8(n: u8) -> (r: Option<Decimal>) ensures of_int(r, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_f64(n: f64) -> (r: Option<Decimal>) ensures r == dec_of_f64(n) { unimplemented!() }
    #[verifier::external_body] pub fn from_f32(n: f32) -> (r: Option<Decimal>) ensures r == dec_of_f32(n) { unimplemented!() }
    #[verifier::external_body] pub fn cmp(&self, o: &Decimal) -> (r: core::cmp::Ordering) ensures r == order(dval(*self), dval(*o)) { unimplemented!() }
    #[verifier::external_body] pub fn normalize(&self) -> (r: Decimal) ensures r == canon(*self) { unimplemented!() }
    #[verifier::external_body] pub fn mantissa(&self) -> (r: i128) ensures r == dmant(*self), -p96() < r < p96() { unimplemented!() }
    #[verifier::external_body] pub fn scale(&self) -> (r: u32) ensures r == dscale(*self), r <= 28 { unimplemented!() }
    /// printed as [-]digits[.digits]: as many digits after the point as the scale, no point when the scale is 0
    #[verifier::external_body] pub fn vx_to_string(&self) -> (r: DecText) ensures dt_of_text(r) == *self { unimplemented!() }
}
impl DecText {
    #[verifier::external_body] pub fn find(&self, c: char) -> (r: Option<usize>) requires c == '.'
        ensures 0 <= dscale(dt_of_text(*self)) <= 28, r is None <==> dscale(dt_of_text(*self)) == 0, r is Some ==> r->Some_0 + 1 + dscale(dt_of_text(*self)) == dt_len(*self) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == dt_len(*self) { unimplemented!() }
}
/// decimal digits of a natural number (1 for zero)
pub open spec fn ndig(n: int) -> int decreases n { if n < 10 { 1 } else { 1 + ndig(n / 10) } }
pub open spec fn iabs(n: int) -> int { if n < 0 { -n } else { n } }
pub struct NumText { pub n: Ghost<int> }
impl NumText { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == (if self.n@ < 0 { 1 + ndig(-self.n@) } else { ndig(self.n@) }) { unimplemented!() } }
@remap-method to_string vx_to_string
pub trait VxShow { spec fn ival(&self) -> int; fn vx_to_string(&self) -> (r: NumText) ensures r.n@ == self.ival(); }
impl VxShow for i128 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for i64 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for i16 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for i8 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for u128 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for u64 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for u32 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for u16 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
impl VxShow for u8 { open spec fn ival(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: NumText) { unimplemented!() } }
pub assume_specification [i128::unsigned_abs] (x: i128) -> (r: u128) ensures r == iabs(x as int);
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r == iabs(x as int);
pub assume_specification [i16::unsigned_abs] (x: i16) -> (r: u16) ensures r == iabs(x as int);
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8) ensures r == iabs(x as int);
pub assume_specification [i128::abs] (x: i128) -> (r: i128) requires x != i128::MIN ensures r == iabs(x as int);
pub assume_specification [i64::abs] (x: i64) -> (r: i64) requires x != i64::MIN ensures r == iabs(x as int);
pub assume_specification [i16::abs] (x: i16) -> (r: i16) requires x != i16::MIN ensures r == iabs(x as int);
pub assume_specification [i8::abs] (x: i8) -> (r: i8) requires x != i8::MIN ensures r == iabs(x as int);
@remap-method into fn:vx_widen
pub trait VxWiden { spec fn wval(&self) -> int; fn vx_w(self) -> (r: u128) ensures r == self.wval(); }
impl VxWiden for u64 { open spec fn wval(&self) -> int { *self as int } fn vx_w(self) -> (r: u128) { self as u128 } }
impl VxWiden for u32 { open spec fn wval(&self) -> int { *self as int } fn vx_w(self) -> (r: u128) { self as u128 } }
impl VxWiden for u16 { open spec fn wval(&self) -> int { *self as int } fn vx_w(self) -> (r: u128) { self as u128 } }
impl VxWiden for u8 { open spec fn wval(&self) -> int { *self as int } fn vx_w(self) -> (r: u128) { self as u128 } }
pub fn vx_widen<T: VxWiden>(x: T) -> (r: u128) ensures r == x.wval() { x.vx_w() }
@remap-method max fn:vx_max
@file rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@type enum NumericLiteral derive=Debug
impl Clone for NumericLiteral { #[verifier::external_body] fn clone(&self) -> (r: NumericLiteral) ensures r == *self { unimplemented!() } }
/// the integer an integer literal stands for
pub open spec fn int_of(a: NumericLiteral) -> Option<int> {
    match a {
        NumericLiteral::Integer(n) => Some(n as int), NumericLiteral::NegativeInteger(n) => Some(n as int), NumericLiteral::NonPositiveInteger(n) => Some(n as int),
        NumericLiteral::Long(n) => Some(n as int), NumericLiteral::Short(n) => Some(n as int), NumericLiteral::Byte(n) => Some(n as int),
        NumericLiteral::NonNegativeInteger(n) => Some(n as int), NumericLiteral::PositiveInteger(n) => Some(n as int),
        NumericLiteral::UnsignedLong(n) => Some(n as int), NumericLiteral::UnsignedInt(n) => Some(n as int), NumericLiteral::UnsignedShort(n) => Some(n as int), NumericLiteral::UnsignedByte(n) => Some(n as int),
        _ => None,
    }
}
/// exact value times 10^28 of integers and decimals
pub open spec fn exact(a: NumericLiteral) -> Option<int> {
    match int_of(a) { Some(n) => Some(n * p28()), None => match a { NumericLiteral::Decimal(d) => Some(dval(d)), _ => None } }
}
/// decimal nearest to a double or float (the library's conversion), None for INF, NaN and values outside the range
pub open spec fn approx(a: NumericLiteral) -> Option<int> {
    match a {
        NumericLiteral::Double(f) => match dec_of_f64(f) { Some(d) => Some(dval(d)), None => None },
        NumericLiteral::Float(f) => match dec_of_f32(f) { Some(d) => Some(dval(d)), None => None },
        _ => match exact(a) { Some(n) => if -p96() * p28() < n < p96() * p28() { Some(n) } else { None }, None => None },
    }
}
pub uninterp spec fn fcmp(a: f64, b: f64) -> Option<core::cmp::Ordering>;
#[verifier::external_body] pub fn vx_fcmp(a: f64, b: &f64) -> (r: Option<core::cmp::Ordering>) ensures r == fcmp(a, *b) { unimplemented!() }
@remap-method partial_cmp fn:vx_fcmp
pub uninterp spec fn dbl(a: NumericLiteral) -> f64;
impl NumericLiteral { #[verifier::external_body] pub fn to_double(&self) -> (r: f64) ensures r == dbl(*self) { unimplemented!() } }
@known to_double
/// order of two numbers by value: exact for integers and decimals, through the nearest decimal or double when one is a float
pub open spec fn num_cmp(a: NumericLiteral, b: NumericLiteral) -> Option<core::cmp::Ordering> {
    match (exact(a), exact(b)) {
        (Some(x), Some(y)) => Some(order(x, y)),
        _ => match (approx(a), approx(b)) { (Some(x), Some(y)) => Some(order(x, y)), _ => fcmp(dbl(a), dbl(b)) },
    }
}
@fn NumericLiteral::to_decimal r
    ensures r is Some <==> approx(*self) is Some, r is Some ==> Some(dval(r->Some_0)) == approx(*self),
        r is Some ==> -p96() * p28() < dval(r->Some_0) < p96() * p28(),
@start
    proof { assert forall|d: Decimal| -p96() * p28() < #[trigger] dval(d) < p96() * p28() by { axiom_decimal(d); }
        assert forall|n: int| fits(n) <==> -p96() * p28() < #[trigger] (n * p28()) < p96() * p28() by { lemma_scale(n, p96()); lemma_scale(-p96(), n); } }
@endfn
pub proof fn lemma_scale(a: int, b: int) ensures a < b <==> a * p28() < b * p28(), a == b <==> a * p28() == b * p28() {
    assert(a < b ==> a * p28() < b * p28()) by(nonlinear_arith) requires p28() > 0;
    assert(a > b ==> a * p28() > b * p28()) by(nonlinear_arith) requires p28() > 0;
}
@fn NumericLiteral::sign_and_magnitude r
    ensures r is Some <==> int_of(*self) is Some, r is Some ==> int_of(*self) == Some(if r->Some_0.0 { -(r->Some_0.1 as int) } else { r->Some_0.1 as int }),
        r is Some && r->Some_0.0 ==> r->Some_0.1 > 0,
@endfn
@fn NumericLiteral::compare_values r
    ensures r == num_cmp(*self, *$1),
@start
    proof { match (int_of(*self), int_of(*$1)) { (Some(a), Some(b)) => { lemma_scale(a, b); lemma_scale(b, a); }, _ => {} }
        assert forall|d: Decimal| -p96() * p28() < #[trigger] dval(d) < p96() * p28() by { axiom_decimal(d); } 
        match int_of(*self) { Some(n) => { lemma_scale(n, 0); lemma_scale(0, n); }, _ => {} }
        match int_of(*$1) { Some(n) => { lemma_scale(n, 0); lemma_scale(0, n); }, _ => {} } }
@endfn
#[verifier::external_body] pub proof fn axiom_ordering_eq() ensures <Ordering as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(), forall|a: Ordering, b: Ordering| #[trigger] <Ordering as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&a, &b) <==> a == b { }
@fn NumericLiteral::less_than r
    ensures r == (num_cmp(*self, *$1) == Some(core::cmp::Ordering::Less)),
@start
    proof { axiom_ordering_eq(); }
@endfn
@fn NumericLiteral::less_than_or_eq r
    ensures r == (num_cmp(*self, *$1) == Some(core::cmp::Ordering::Less) || num_cmp(*self, *$1) == Some(core::cmp::Ordering::Equal)),
@endfn
/// digits of the canonical form, without sign, point and leading zeros; floats and doubles have no digits
pub open spec fn tdig(a: NumericLiteral) -> Option<int> {
    match int_of(a) { Some(n) => Some(ndig(iabs(n))), None => match a {
        NumericLiteral::Decimal(d) => Some(if ndig(iabs(dmant(canon(d)))) >= dscale(canon(d)) { ndig(iabs(dmant(canon(d)))) } else { dscale(canon(d)) }), _ => None } }
}
pub open spec fn fdig(a: NumericLiteral) -> Option<int> {
    match int_of(a) { Some(n) => Some(0), None => match a { NumericLiteral::Decimal(d) => Some(dscale(canon(d))), _ => None } }
}
@fn NumericLiteral::total_digits r
    ensures r is Some <==> tdig(*self) is Some, r is Some ==> Some(r->Some_0 as int) == tdig(*self),
@start
    proof { assert(ndig(170141183460469231731687303715884105728) == 39) by(compute); assert(ndig(9223372036854775808) == 19) by(compute); assert(ndig(32768) == 5) by(compute); assert(ndig(128) == 3) by(compute); }
@endfn
@fn NumericLiteral::fraction_digits r
    ensures r is Some <==> fdig(*self) is Some, r is Some ==> Some(r->Some_0 as int) == fdig(*self),
@optmap
@endfn
