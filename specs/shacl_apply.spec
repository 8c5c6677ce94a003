// ---- iteration strategies and the generic evaluation of a constraint ----
@iter-method iterate
@remap-path MessageMap::from vx_message
pub struct FocusNodeIteration;
pub struct ValueNodeIteration;
#[verifier::external_body] pub struct MessageMap { x: u64 }
#[verifier::external_body] pub fn vx_message(s: &str) -> MessageMap { unimplemented!() }
impl MessageMap {
    #[verifier::external_body] pub fn merge(self, o: MessageMap, b: bool) -> MessageMap { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> MessageMap { unimplemented!() }
}
impl IRShape {
    #[verifier::external_body] pub fn message(&self) -> Option<&MessageMap> { unimplemented!() }
}
/// every focus node with each of its value nodes
pub open spec fn flat(vn: Seq<(Term, FocusNodes)>, i: int, j: int) -> Seq<(Term, Term)>
    decreases i, j
{
    if i < 0 || (i == 0 && j <= 0) { Seq::empty() }
    else if j <= 0 { flat(vn, i - 1, vn[i - 1].1@.len() as int) }
    else { flat(vn, i, j - 1).push((vn[i].0, vn[i].1@[j - 1])) }
}
pub trait IterationStrategy: Sized {
    type Item;
    spec fn pairs(vn: Seq<(Term, FocusNodes)>) -> Seq<(Term, Self::Item)>;
    spec fn term(item: Self::Item) -> Option<Term>;
    fn iterate<'a>(&'a self, value_nodes: &'a ValueNodes) -> (r: Vec<(&'a Term, &'a Self::Item)>)
        ensures r@.len() == Self::pairs(value_nodes@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == Self::pairs(value_nodes@)[i].0 && *r@[i].1 == Self::pairs(value_nodes@)[i].1;
    fn to_value(&self, item: &Self::Item) -> (r: Option<Term>)
        ensures r == Self::term(*item);
}
pub open spec fn obj_opt(t: Option<Term>) -> Option<Object> { match t { Some(x) => Some(obj_of(x)), None => None } }
@file shacl/src/validator/iteration/strategy.rs
@fn IterationStrategy::to_object r
    ensures r == obj_opt(I::term(*$1)),
@impl free
@selfarg vx_self: &I
@argty 1 &I::Item
@generics <I: IterationStrategy>
@rename to_object_of
@endfn
@remap-method to_object fnref:to_object_of
/// one validation result for every pair before n for which `bad` holds
pub open spec fn genv<I: IterationStrategy>(ps: Seq<(Term, I::Item)>, n: int, bad: spec_fn(Term, I::Item) -> bool, comp: Object, sh: IRShape, path: Option<&SHACLPath>) -> Seq<ValidationResult>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else {
        let e = genv::<I>(ps, n - 1, bad, comp, sh, path);
        if bad(ps[n - 1].0, ps[n - 1].1) { e.push(vresult(ps[n - 1].0, comp, sh, path, obj_opt(I::term(ps[n - 1].1)))) } else { e }
    }
}
pub open spec fn viols<I: IterationStrategy>(vn: Seq<(Term, FocusNodes)>, bad: spec_fn(Term, I::Item) -> bool, c: IRComponent, sh: IRShape, path: Option<&SHACLPath>) -> Seq<ValidationResult>
{ genv::<I>(I::pairs(vn), I::pairs(vn).len() as int, bad, obj_of_iri(iri_of(c)), sh, path) }

@file shacl/src/validator/iteration/focus_node.rs
@fn FocusNodeIteration::iterate r
    ensures r@.len() == $1@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == $1@[i].0 && *r@[i].1 == $1@[i].1,
@boxiter
@collect 0 Vec::<(&'a Term, &'a FocusNodes)> push
@argty 1 &'a ValueNodes
@generics <'a>
@selfarg &'a self
@ret Vec<(&'a Term, &'a FocusNodes)>
@rename iterate_focus
@loop 0
    invariant $c@ == $1@, $acc@.len() == $i, forall|i: int| 0 <= i < $acc@.len() ==> *(#[trigger] $acc@[i]).0 == $1@[i].0 && *$acc@[i].1 == $1@[i].1,
@endfn
@fn FocusNodeIteration::to_value r
    ensures r is None,
@rename to_value_focus
@argty 1 &FocusNodes
@endfn
impl IterationStrategy for FocusNodeIteration {
    type Item = FocusNodes;
    open spec fn pairs(vn: Seq<(Term, FocusNodes)>) -> Seq<(Term, FocusNodes)> { vn }
    open spec fn term(item: FocusNodes) -> Option<Term> { None }
    fn iterate<'a>(&'a self, value_nodes: &'a ValueNodes) -> (r: Vec<(&'a Term, &'a FocusNodes)>) { self.iterate_focus(value_nodes) }
    fn to_value(&self, item: &FocusNodes) -> (r: Option<Term>) { self.to_value_focus(item) }
}
@file shacl/src/validator/iteration/value_node.rs
@fn ValueNodeIteration::iterate r
    ensures ({ let p = flat($1@, $1@.len() as int, 0); r@.len() == p.len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == p[i].0 && *r@[i].1 == p[i].1 }),
@boxiter
@start
    let ghost vx_vn = $1@;
@collect 0 Vec::<(&'a Term, &'a Term)> push
@argty 1 &'a ValueNodes
@generics <'a>
@selfarg &'a self
@ret Vec<(&'a Term, &'a Term)>
@rename iterate_value
@loop 0
    invariant $c@ == vx_vn, ({ let p = flat(vx_vn, $i as int, 0); $acc@.len() == p.len() && forall|i: int| 0 <= i < $acc@.len() ==> *(#[trigger] $acc@[i]).0 == p[i].0 && *$acc@[i].1 == p[i].1 }),
@loop 1
    invariant 1 <= $i@0 <= $c@0@.len(), $c@0@ == vx_vn, $c@ == vx_vn[$i@0 - 1].1@, *focus_node == vx_vn[$i@0 - 1].0,
        ({ let p = flat(vx_vn, $i@0 - 1, $i as int); $acc@.len() == p.len() && forall|i: int| 0 <= i < $acc@.len() ==> *(#[trigger] $acc@[i]).0 == p[i].0 && *$acc@[i].1 == p[i].1 }),
@endfn
@fn ValueNodeIteration::to_value r
    ensures r == Some(*$1),
@rename to_value_value
@argty 1 &Term
@endfn
impl IterationStrategy for ValueNodeIteration {
    type Item = Term;
    open spec fn pairs(vn: Seq<(Term, FocusNodes)>) -> Seq<(Term, Term)> { flat(vn, vn.len() as int, 0) }
    open spec fn term(item: Term) -> Option<Term> { Some(item) }
    fn iterate<'a>(&'a self, value_nodes: &'a ValueNodes) -> (r: Vec<(&'a Term, &'a Term)>) { self.iterate_value(value_nodes) }
    fn to_value(&self, item: &Term) -> (r: Option<Term>) { self.to_value_value(item) }
}
/// what a violation test decides about an item, in the four shapes it is passed in
pub open spec fn dec1<I: IterationStrategy, F: Fn(&I::Item) -> Result<bool, ValidationError>>(ev: F, bad: spec_fn(Term, I::Item) -> bool) -> bool
{ forall|f: Term, x: &I::Item, b: Result<bool, ValidationError>| #[trigger] ev.ensures((x,), b) ==> #[trigger] bad(f, *x) == (b matches Ok(true)) }
pub open spec fn dec2<I: IterationStrategy, F: Fn(&Term, &I::Item) -> Result<bool, ValidationError>>(ev: F, bad: spec_fn(Term, I::Item) -> bool) -> bool
{ forall|f: &Term, x: &I::Item, b: Result<bool, ValidationError>| #[trigger] ev.ensures((f, x), b) ==> bad(*f, *x) == (b matches Ok(true)) }
pub open spec fn dec1b<I: IterationStrategy, F: Fn(&I::Item) -> bool>(ev: F, bad: spec_fn(Term, I::Item) -> bool) -> bool
{ forall|f: Term, x: &I::Item, b: bool| #[trigger] ev.ensures((x,), b) ==> #[trigger] bad(f, *x) == b }
pub open spec fn dec2b<I: IterationStrategy, F: Fn(&Term, &I::Item) -> bool>(ev: F, bad: spec_fn(Term, I::Item) -> bool) -> bool
{ forall|f: &Term, x: &I::Item, b: bool| #[trigger] ev.ensures((f, x), b) ==> bad(*f, *x) == b }
@file shacl/src/validator/constraints/mod.rs
@fn apply r
    requires forall|x: &I::Item| #[trigger] $5.requires((x,)),
    ensures
        r is Ok,
        forall|bad: spec_fn(Term, I::Item) -> bool| dec1::<I, F>($5, bad) ==> r->Ok_0@ == #[trigger] viols::<I>($3@, bad, *$1, *$2, $7),
@generics <I: IterationStrategy, F: Fn(&I::Item) -> Result<bool, ValidationError>>
@argty 5 F
@loop 0
    invariant
        $c@.len() == I::pairs($3@).len(),
        forall|i: int| 0 <= i < $c@.len() ==> *(#[trigger] $c@[i]).0 == I::pairs($3@)[i].0 && *$c@[i].1 == I::pairs($3@)[i].1,
        forall|bad: spec_fn(Term, I::Item) -> bool| #[trigger] dec1::<I, F>($5, bad)
            ==> $acc@ == genv::<I>(I::pairs($3@), $i as int, bad, obj_of_iri(iri_of(*$1)), *$2, $7),
    decreases $c@.len() - $i
@attrs #[verifier::loop_isolation(false)]
@endfn
@fn apply_with_focus r
    requires forall|f: &Term, x: &I::Item| #[trigger] $5.requires((f, x)),
    ensures
        r is Ok,
        forall|bad: spec_fn(Term, I::Item) -> bool| dec2::<I, F>($5, bad) ==> r->Ok_0@ == #[trigger] viols::<I>($3@, bad, *$1, *$2, $7),
@generics <I: IterationStrategy, F: Fn(&Term, &I::Item) -> Result<bool, ValidationError>>
@argty 5 F
@loop 0
    invariant
        $c@.len() == I::pairs($3@).len(),
        forall|i: int| 0 <= i < $c@.len() ==> *(#[trigger] $c@[i]).0 == I::pairs($3@)[i].0 && *$c@[i].1 == I::pairs($3@)[i].1,
        forall|bad: spec_fn(Term, I::Item) -> bool| #[trigger] dec2::<I, F>($5, bad)
            ==> $acc@ == genv::<I>(I::pairs($3@), $i as int, bad, obj_of_iri(iri_of(*$1)), *$2, $7),
    decreases $c@.len() - $i
@attrs #[verifier::loop_isolation(false)]
@endfn
@fn validate_with r
    requires forall|x: &I::Item| #[trigger] $5.requires((x,)),
    ensures
        r is Ok,
        forall|bad: spec_fn(Term, I::Item) -> bool| dec1b::<I, F>($5, bad) ==> r->Ok_0@ == #[trigger] viols::<I>($3@, bad, *$1, *$2, $7),
@generics <I: IterationStrategy, F: Fn(&I::Item) -> bool>
@argty 5 F
@closure 0
    -> (r: Result<bool, ValidationError>) requires $5.requires((item,)) ensures r is Ok, $5.ensures((item,), r->Ok_0)
@endfn
@fn validate_with_focus r
    requires forall|f: &Term, x: &I::Item| #[trigger] $5.requires((f, x)),
    ensures
        r is Ok,
        forall|bad: spec_fn(Term, I::Item) -> bool| dec2b::<I, F>($5, bad) ==> r->Ok_0@ == #[trigger] viols::<I>($3@, bad, *$1, *$2, $7),
@generics <I: IterationStrategy, F: Fn(&Term, &I::Item) -> bool>
@argty 5 F
@closure 0
    -> (r: Result<bool, ValidationError>) requires $5.requires((f, i)) ensures r is Ok, $5.ensures((f, i), r->Ok_0)
@endfn
