use vstd::prelude::*;
use vstd::multiset::*;
verus! {
global size_of usize == 8;

// ---- trusted contracts of the standard library ----
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r as int == (a as int + b as int - 1) / b as int;

pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { panic!() }
/// an item moved out of a collection that is not used again
#[verifier::external_body] pub fn vx_own<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// both have the same type
pub fn vx_like<T>(a: &Option<T>, b: &T) {}
pub fn vx_check(b: bool) requires b {}
@remap-path cmp::max vx_max
@remap-path cmp::min vx_min
/// the items of an option
pub fn vx_opt_items<T>(o: Option<T>) -> (r: Vec<T>)
    ensures o matches Some(x) ==> r@ == seq![x], o is None ==> r@.len() == 0
{
    let mut v = Vec::new();
    match o { Some(x) => { v.push(x); } None => {} }
    proof { if o is Some { assert(v@ =~= seq![o->Some_0]); } }
    v
}
/// the items of a collection, an option or a result, in an order of their own
pub trait VxSeq { type Item; spec fn items(self) -> Seq<Self::Item>; fn vx_seq_items(self) -> (r: Vec<Self::Item>) where Self: Sized ensures r@ == self.items(); }
pub fn vx_seq<T: VxSeq>(x: T) -> (r: Vec<T::Item>) ensures r@ == x.items() { x.vx_seq_items() }
impl<T, E> VxSeq for Result<T, E> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { match self { Ok(x) => seq![x], Err(_) => Seq::empty() } }
    fn vx_seq_items(self) -> (r: Vec<T>) { let mut v = Vec::new(); match self { Ok(x) => { v.push(x); } Err(_) => {} } proof { assert(v@ =~= self.items()); } v }
}
impl<T> VxSeq for Vec<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    fn vx_seq_items(self) -> (r: Vec<T>) { self }
}
pub fn vx_concat<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
