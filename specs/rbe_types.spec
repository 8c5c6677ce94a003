// ---- symbols, bags, sets: trusted contracts of the collection types ----
@subst-type A Key
@subst-type HashSet KeySet
@erase-generics Rbe Bag DerivError Failures RbeStruct Component
@erase-path DerivError::* derr()
@drop-ident failures
#[verifier::external_body]
pub struct Key { x: u64 }
impl Clone for Key { #[verifier::external_body] fn clone(&self) -> (r: Key) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Key { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Key) -> bool { *self == *other } }
impl PartialEq for Key { #[verifier::external_body] fn eq(&self, other: &Key) -> (r: bool) { unimplemented!() } }

#[verifier::external_body]
pub struct DerivError { x: u64 }
impl Clone for DerivError { #[verifier::external_body] fn clone(&self) -> (r: DerivError) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn derr() -> DerivError { unimplemented!() }
#[verifier::external_body]
pub fn vx_opaque_string() -> String { unimplemented!() }

#[verifier::external_body]
pub struct Bag { x: u64 }
impl View for Bag { type V = Multiset<Key>; uninterp spec fn view(&self) -> Multiset<Key>; }
impl Clone for Bag { #[verifier::external_body] fn clone(&self) -> (r: Bag) ensures r == *self { unimplemented!() } }
impl Bag {
    #[verifier::external_body] pub fn new() -> (r: Bag) ensures r@ == Multiset::<Key>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Key) -> (r: usize) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &Key) -> (r: usize) ensures r == self@.count(*k) { unimplemented!() }
    // the entries enumerated by Bag::iter: every element with its count, no element twice
    #[verifier::external_body] pub fn vx_entries(&self) -> (r: Vec<(Key, usize)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] self@.count(r@[i].0) == r@[i].1 && r@[i].1 > 0,
            forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> r@[i].0 != r@[j].0,
            forall|k: Key| #[trigger] self@.count(k) > 0 ==> exists|i: int| 0 <= i < r@.len() && r@[i].0 == k,
    { unimplemented!() }
}
/// sets of symbols and sets of references to symbols are the same sets
pub trait AsKey: Sized { spec fn key(self) -> Key; }
impl AsKey for Key { open spec fn key(self) -> Key { self } }
impl<'a> AsKey for &'a Key { open spec fn key(self) -> Key { *self } }
#[verifier::external_body]
pub struct KeySet { x: u64 }
impl View for KeySet { type V = ISet<Key>; uninterp spec fn view(&self) -> ISet<Key>; }
impl KeySet {
    #[verifier::external_body] pub fn new() -> (r: KeySet) ensures r@ == ISet::<Key>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert<Q: AsKey>(&mut self, k: Q) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.key()), r == !old(self)@.contains(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &Key) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == ISet::<Key>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<Key>)
        ensures forall|k: Key| #[trigger] self@.contains(k) <==> r@.contains(k), { unimplemented!() }
}
impl Clone for KeySet { #[verifier::external_body] fn clone(&self) -> (r: KeySet) ensures r == *self { unimplemented!() } }
@bag-ident bag
@iter-via symbols() vx_items
@iter-via symbols vx_items

@file rbe/src/rbe.rs
@type enum Rbe
impl Clone for Rbe { #[verifier::external_body] fn clone(&self) -> (r: Rbe) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Rbe { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Rbe) -> bool { *self == *other } }
impl PartialEq for Rbe { #[verifier::external_body] fn eq(&self, other: &Rbe) -> (r: bool) { unimplemented!() } }

// ---- the language of a regular bag expression ----
pub type MS = Multiset<Key>;
/// m = a + b
pub open spec fn split(m: MS, a: MS, b: MS) -> bool { m =~= a.add(b) }
pub open spec fn tn(n: nat) -> bool { true }
pub open spec fn lang(e: Rbe, m: MS) -> bool
    decreases e, 0nat
{
    match e {
        Rbe::Fail { error } => false,
        Rbe::Empty => m =~= Multiset::empty(),
        Rbe::Symbol { value, card } => (forall|k: Key| k != value ==> #[trigger] m.count(k) == 0) && card_has(card, m.count(value) as int),
        Rbe::And { values } => lang_and(values, 0, m),
        Rbe::Or { values } => exists|i: int| 0 <= i < values@.len() && lang(#[trigger] values@[i], m),
        Rbe::Star { value } => exists|n: nat| #[trigger] tn(n) && lang_pow(*value, n, m),
        Rbe::Plus { value } => exists|n: nat| n >= 1 && #[trigger] tn(n) && lang_pow(*value, n, m),
        Rbe::Repeat { value, card } => exists|n: nat| card_has(card, n as int) && #[trigger] tn(n) && lang_pow(*value, n, m),
    }
}
pub open spec fn lang_and(values: Vec<Rbe>, i: nat, m: MS) -> bool
    decreases values, values@.len() - i
{
    if i >= values@.len() { m =~= Multiset::empty() }
    else { exists|a: MS, b: MS| #[trigger] split(m, a, b) && lang(values@[i as int], a) && lang_and(values, i + 1, b) }
}
/// `m` is the sum of `n` bags of the language of `e`
pub open spec fn lang_pow(e: Rbe, n: nat, m: MS) -> bool
    decreases e, n + 1
{
    if n == 0 { m =~= Multiset::empty() }
    else { exists|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, (n - 1) as nat, b) }
}
/// symbols of an expression
pub open spec fn syms(e: Rbe, k: Key) -> bool
    decreases e
{
    match e {
        Rbe::Fail { error } => false,
        Rbe::Empty => false,
        Rbe::Symbol { value, card } => value == k,
        Rbe::And { values } => exists|i: int| 0 <= i < values@.len() && syms(#[trigger] values@[i], k),
        Rbe::Or { values } => exists|i: int| 0 <= i < values@.len() && syms(#[trigger] values@[i], k),
        Rbe::Star { value } => syms(*value, k),
        Rbe::Plus { value } => syms(*value, k),
        Rbe::Repeat { value, card } => syms(*value, k),
    }
}
/// group cardinalities {min,max} have min <= max; conjunctions and disjunctions have at least one member
pub open spec fn wf(e: Rbe) -> bool
    decreases e
{
    match e {
        Rbe::And { values } => (forall|i: int| 0 <= i < values@.len() ==> wf(#[trigger] values@[i])) && values@.len() > 0,
        Rbe::Or { values } => (forall|i: int| 0 <= i < values@.len() ==> wf(#[trigger] values@[i])) && values@.len() > 0,
        Rbe::Star { value } => wf(*value),
        Rbe::Plus { value } => wf(*value),
        Rbe::Repeat { value, card } => wf(*value) && le_max(card.min.value as int, card.max),
        _ => true,
    }
}
/// every symbol occurs at most once
pub open spec fn sorbe(e: Rbe) -> bool
    decreases e
{
    match e {
        Rbe::And { values } => (forall|i: int| 0 <= i < values@.len() ==> sorbe(#[trigger] values@[i])) && disjoint(values@),
        Rbe::Or { values } => (forall|i: int| 0 <= i < values@.len() ==> sorbe(#[trigger] values@[i])) && disjoint(values@),
        Rbe::Star { value } => sorbe(*value),
        Rbe::Plus { value } => sorbe(*value),
        Rbe::Repeat { value, card } => sorbe(*value),
        _ => true,
    }
}
pub open spec fn disjoint(s: Seq<Rbe>) -> bool {
    forall|i: int, j: int, k: Key| 0 <= i < s.len() && 0 <= j < s.len() && i != j && #[trigger] syms(s[i], k) ==> !#[trigger] syms(s[j], k)
}
/// only symbols of the expression occur in its bags
pub proof fn lemma_support(e: Rbe, m: MS, k: Key)
    requires lang(e, m), !syms(e, k)
    ensures m.count(k) == 0
    decreases e, 0nat
{
    match e {
        Rbe::And { values } => { lemma_support_and(values, 0, m, k); }
        Rbe::Or { values } => { let i = choose|i: int| 0 <= i < values@.len() && lang(#[trigger] values@[i], m); lemma_support(values@[i], m, k); }
        Rbe::Star { value } => { let n = choose|n: nat| #[trigger] tn(n) && lang_pow(*value, n, m); lemma_support_pow(*value, n, m, k); }
        Rbe::Plus { value } => { let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && lang_pow(*value, n, m); lemma_support_pow(*value, n, m, k); }
        Rbe::Repeat { value, card } => { let n = choose|n: nat| card_has(card, n as int) && #[trigger] tn(n) && lang_pow(*value, n, m); lemma_support_pow(*value, n, m, k); }
        _ => {}
    }
}
pub proof fn lemma_support_and(values: Vec<Rbe>, i: nat, m: MS, k: Key)
    requires lang_and(values, i, m), forall|j: int| i <= j < values@.len() ==> !syms(#[trigger] values@[j], k)
    ensures m.count(k) == 0
    decreases values, values@.len() - i
{
    if i < values@.len() {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(values@[i as int], a) && lang_and(values, i + 1, b);
        lemma_support(values@[i as int], a, k);
        lemma_support_and(values, i + 1, b, k);
    }
}
pub proof fn lemma_support_pow(e: Rbe, n: nat, m: MS, k: Key)
    requires lang_pow(e, n, m), !syms(e, k)
    ensures m.count(k) == 0
    decreases e, n + 1
{
    if n > 0 {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, (n - 1) as nat, b);
        lemma_support(e, a, k);
        lemma_support_pow(e, (n - 1) as nat, b, k);
    }
}
