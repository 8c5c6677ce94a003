// ---- property paths: the relation a path denotes, and its evaluation ----
@subst-type Self::Term Term
@subst-type Self::IRI IriS
@subst-type Self::Subject Subj
@subst-type RDFError ValidationError
@subst-type HashSet TermSet
@remap-path Self::term_as_subject term_as_subject
@erase-method map_err self
@remap-method to_vec fn:vx_to_vec
@remap-method as_ref fn:vx_box_ref
@iter-result triples_matching
@byval-iter next_objects
@byval-iter first_objects
@iter-via next_objects vx_into_items
@iter-via first_objects vx_into_items
pub uninterp spec fn subj_of(t: Term) -> Subj;
pub uninterp spec fn t_lit(t: Term) -> bool;
#[verifier::external_body] pub struct Subj { x: u64 }
#[verifier::external_body] pub struct Triple { x: u64 }
pub uninterp spec fn tr_s(t: Triple) -> Subj;
pub uninterp spec fn tr_o(t: Triple) -> Term;
pub uninterp spec fn term_of_subj(s: Subj) -> Term;
/// the triple (s, p, o) is in the graph
pub uninterp spec fn has(st: Store, s: Subj, p: IriS, o: Term) -> bool;
/// subjects are the terms that are not literals
#[verifier::external_body] pub proof fn axiom_subj() ensures forall|s: Subj| subj_of(#[trigger] term_of_subj(s)) == s && !t_lit(term_of_subj(s)), forall|t: Term| !t_lit(t) ==> term_of_subj(#[trigger] subj_of(t)) == t {}
/// the store answers every query (an in-memory graph does)
pub uninterp spec fn up(st: Store) -> bool;
#[verifier::external_body] pub fn term_as_subject(t: &Term) -> (r: Result<Subj, ValidationError>) ensures r is Ok <==> !t_lit(*t), r is Ok ==> r->Ok_0 == subj_of(*t) { unimplemented!() }
@remap-path Into::into vx_subj_term
#[verifier::external_body] pub fn vx_subj_term(s: Subj) -> (r: Term) ensures r == term_of_subj(s) { unimplemented!() }
impl IriS { #[verifier::external_body] pub fn into(self) -> (r: IriS) ensures r == self { unimplemented!() } }
impl Triple {
    #[verifier::external_body] pub fn into_object(&self) -> (r: Term) ensures r == tr_o(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_subject(&self) -> (r: Subj) ensures r == tr_s(*self) { unimplemented!() }
}
/// a position of a triple pattern
pub trait Pat<T> { spec fn fits(&self, x: T) -> bool; }
pub struct Any;
impl<T> Pat<T> for Any { open spec fn fits(&self, x: T) -> bool { true } }
impl Pat<Subj> for Subj { open spec fn fits(&self, x: Subj) -> bool { x == *self } }
impl Pat<IriS> for IriS { open spec fn fits(&self, x: IriS) -> bool { x == *self } }
impl Pat<Term> for Term { open spec fn fits(&self, x: Term) -> bool { x == *self } }
pub open spec fn hit<S: Pat<Subj>, P: Pat<IriS>, O: Pat<Term>>(st: Store, s: S, p: P, o: O, x: Subj, y: IriS, z: Term) -> bool { has(st, x, y, z) && s.fits(x) && p.fits(y) && o.fits(z) }
impl Store {
    /// the store returns exactly the matching triples
    #[verifier::external_body] pub fn triples_matching<S: Pat<Subj>, P: Pat<IriS>, O: Pat<Term>>(&self, s: &S, p: &P, o: &O) -> (r: Result<Vec<Triple>, ValidationError>)
        ensures up(*self) ==> r is Ok, r is Ok ==> (forall|x: Subj, y: IriS, z: Term| #[trigger] hit(*self, *s, *p, *o, x, y, z) ==> exists|k: int| 0 <= k < r->Ok_0@.len() && tr_s(#[trigger] r->Ok_0@[k]) == x && tr_o(r->Ok_0@[k]) == z),
            r is Ok ==> (forall|k: int| 0 <= k < r->Ok_0@.len() ==> exists|y: IriS| hit(*self, *s, *p, *o, tr_s(#[trigger] r->Ok_0@[k]), y, tr_o(r->Ok_0@[k]))),
    { unimplemented!() }
}
/// a set of terms
#[verifier::external_body] pub struct TermSet { x: u64 }
impl View for TermSet { type V = ISet<Term>; uninterp spec fn view(&self) -> ISet<Term>; }
impl TermSet {
    #[verifier::external_body] pub fn new() -> (r: TermSet) ensures r@ == ISet::<Term>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from(a: [Term; 1]) -> (r: TermSet) ensures r@ == ISet::<Term>::empty().insert(a@[0]) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: Term) -> (r: bool) ensures final(self)@ == old(self)@.insert(v), r == !old(self)@.contains(v) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: TermSet) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, v: &Term) -> (r: bool) ensures r == self@.contains(*v) { unimplemented!() }
    #[verifier::external_body] pub fn vx_into_items(self) -> (r: Vec<Term>) ensures forall|x: Term| r@.contains(x) <==> self@.contains(x) { unimplemented!() }
}
impl Clone for TermSet { #[verifier::external_body] fn clone(&self) -> (r: TermSet) ensures r@ == self@ { unimplemented!() } }
@file rudof_rdf/src/rdf_core/shacl_path.rs
@type enum SHACLPath
impl Clone for SHACLPath { #[verifier::external_body] fn clone(&self) -> (r: SHACLPath) ensures r == *self { unimplemented!() } }
pub fn vx_box_ref(b: &Box<SHACLPath>) -> (r: &SHACLPath) ensures *r == **b { &**b }
#[verifier::external_body] pub fn vx_to_vec(s: &[SHACLPath]) -> (r: Vec<SHACLPath>) ensures r@ == s@ { unimplemented!() }
@fn SHACLPath::sequence r
    ensures r == (SHACLPath::Sequence { paths: $1 }),
@endfn
@fn SHACLPath::alternative r
    ensures r == (SHACLPath::Alternative { paths: $1 }),
@endfn
@fn SHACLPath::inverse r
    ensures r matches SHACLPath::Inverse { path: vp } && *vp == $1,
@endfn
@fn SHACLPath::zero_or_more r
    ensures r matches SHACLPath::ZeroOrMore { path: vp } && *vp == $1,
@endfn
@fn SHACLPath::one_or_more r
    ensures r matches SHACLPath::OneOrMore { path: vp } && *vp == $1,
@endfn
@fn SHACLPath::zero_or_one r
    ensures r matches SHACLPath::ZeroOrOne { path: vp } && *vp == $1,
@endfn
// ---- the relation of a path ----
pub open spec fn tn(n: nat) -> bool { true }
pub open spec fn mid(z: Term) -> bool { true }
pub open spec fn edge(st: Store, x: Term, p: IriS, y: Term) -> bool { !t_lit(x) && has(st, subj_of(x), p, y) }
pub open spec fn rel(st: Store, path: SHACLPath, x: Term, y: Term) -> bool
    decreases path, 0nat
{
    match path {
        SHACLPath::Predicate { pred } => edge(st, x, pred, y),
        SHACLPath::Alternative { paths } => exists|k: nat| k < paths@.len() && #[trigger] tn(k) && rel(st, paths@[k as int], x, y),
        SHACLPath::Sequence { paths } => chain(st, paths, 0, paths@.len() as nat, x, y),
        SHACLPath::Inverse { path } => rel(st, *path, y, x),
        SHACLPath::ZeroOrMore { path } => exists|n: nat| #[trigger] tn(n) && steps(st, *path, n, x, y),
        SHACLPath::OneOrMore { path } => exists|n: nat| n >= 1 && #[trigger] tn(n) && steps(st, *path, n, x, y),
        SHACLPath::ZeroOrOne { path } => x == y || rel(st, *path, x, y),
    }
}
/// the composition of paths[i..j]
pub open spec fn chain(st: Store, paths: Vec<SHACLPath>, i: nat, j: nat, x: Term, y: Term) -> bool
    decreases paths, j - i
{
    if i >= j || j > paths@.len() { x == y }
    else { exists|z: Term| #[trigger] mid(z) && rel(st, paths@[i as int], x, z) && chain(st, paths, i + 1, j, z, y) }
}
/// n steps of the path
pub open spec fn steps(st: Store, path: SHACLPath, n: nat, x: Term, y: Term) -> bool
    decreases path, n + 1
{
    if n == 0 { x == y }
    else { exists|z: Term| #[trigger] mid(z) && rel(st, path, x, z) && steps(st, path, (n - 1) as nat, z, y) }
}
pub open spec fn star(st: Store, path: SHACLPath, x: Term, y: Term) -> bool { exists|n: nat| #[trigger] tn(n) && steps(st, path, n, x, y) }
pub open spec fn plus(st: Store, path: SHACLPath, x: Term, y: Term) -> bool { exists|n: nat| n >= 1 && #[trigger] tn(n) && steps(st, path, n, x, y) }
pub proof fn lemma_steps_snoc(st: Store, p: SHACLPath, n: nat, x: Term, y: Term, w: Term)
    requires steps(st, p, n, x, y), rel(st, p, y, w)
    ensures steps(st, p, n + 1, x, w)
    decreases n
{
    assert(mid(w) && mid(y));
    if n == 0 { assert(steps(st, p, 0, w, w)); assert(rel(st, p, x, w)); }
    else {
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, p, x, z) && steps(st, p, (n - 1) as nat, z, y);
        lemma_steps_snoc(st, p, (n - 1) as nat, z, y, w);
        assert(steps(st, p, n, z, w));
    }
}
pub proof fn lemma_star_ext(st: Store, p: SHACLPath, x: Term, y: Term, w: Term)
    requires rel(st, p, y, w)
    ensures star(st, p, x, y) ==> star(st, p, x, w), plus(st, p, x, y) ==> plus(st, p, x, w)
{
    if star(st, p, x, y) { let n = choose|n: nat| #[trigger] tn(n) && steps(st, p, n, x, y); lemma_steps_snoc(st, p, n, x, y, w); assert(tn(n + 1)); }
    if plus(st, p, x, y) { let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && steps(st, p, n, x, y); lemma_steps_snoc(st, p, n, x, y, w); assert(tn(n + 1)); }
}
pub proof fn lemma_star_0(st: Store, p: SHACLPath, x: Term) ensures star(st, p, x, x) { assert(tn(0)); assert(steps(st, p, 0, x, x)); }
pub proof fn lemma_plus_1(st: Store, p: SHACLPath, x: Term, y: Term) requires rel(st, p, x, y) ensures plus(st, p, x, y) { lemma_steps_snoc(st, p, 0, x, x, y); assert(tn(1)); }
/// a set that is closed under the path holds everything reachable from its members
pub open spec fn closed(st: Store, p: SHACLPath, s: ISet<Term>) -> bool { forall|a: Term, b: Term| s.contains(a) && #[trigger] rel(st, p, a, b) ==> s.contains(b) }
pub proof fn lemma_closed(st: Store, p: SHACLPath, s: ISet<Term>, n: nat, x: Term, y: Term)
    requires closed(st, p, s), steps(st, p, n, x, y), s.contains(x)
    ensures s.contains(y)
    decreases n
{
    if n > 0 {
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, p, x, z) && steps(st, p, (n - 1) as nat, z, y);
        lemma_closed(st, p, s, (n - 1) as nat, z, y);
    }
}
pub proof fn lemma_star_result(st: Store, p: SHACLPath, s: ISet<Term>, x: Term)
    requires closed(st, p, s), s.contains(x), forall|y: Term| s.contains(y) ==> star(st, p, x, y)
    ensures forall|y: Term| s.contains(y) <==> star(st, p, x, y)
{
    assert forall|y: Term| star(st, p, x, y) implies s.contains(y) by { let n = choose|n: nat| #[trigger] tn(n) && steps(st, p, n, x, y); lemma_closed(st, p, s, n, x, y); }
}
pub proof fn lemma_plus_result(st: Store, p: SHACLPath, s: ISet<Term>, x: Term)
    requires closed(st, p, s), forall|y: Term| rel(st, p, x, y) ==> s.contains(y), forall|y: Term| s.contains(y) ==> plus(st, p, x, y)
    ensures forall|y: Term| s.contains(y) <==> plus(st, p, x, y)
{
    assert forall|y: Term| plus(st, p, x, y) implies s.contains(y) by {
        let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && steps(st, p, n, x, y);
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, p, x, z) && steps(st, p, (n - 1) as nat, z, y);
        lemma_closed(st, p, s, (n - 1) as nat, z, y);
    }
}
// ---- the inverse of a path, pushed down ----
pub open spec fn is_inv(q: SHACLPath, p: SHACLPath) -> bool { q matches SHACLPath::Inverse { path } && *path == p }
pub proof fn lemma_inv(st: Store, q: SHACLPath, p: SHACLPath, x: Term, y: Term)
    requires is_inv(q, p)
    ensures rel(st, q, x, y) == rel(st, p, y, x)
{ }
pub proof fn lemma_steps_inv(st: Store, q: SHACLPath, p: SHACLPath, n: nat, x: Term, y: Term)
    requires is_inv(q, p), steps(st, q, n, x, y)
    ensures steps(st, p, n, y, x)
    decreases n
{
    if n > 0 {
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, q, x, z) && steps(st, q, (n - 1) as nat, z, y);
        lemma_steps_inv(st, q, p, (n - 1) as nat, z, y);
        lemma_inv(st, q, p, x, z);
        lemma_steps_snoc(st, p, (n - 1) as nat, y, z, x);
    }
}
pub proof fn lemma_steps_inv2(st: Store, q: SHACLPath, p: SHACLPath, n: nat, x: Term, y: Term)
    requires is_inv(q, p), steps(st, p, n, y, x)
    ensures steps(st, q, n, x, y)
    decreases n
{
    if n > 0 {
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, p, y, z) && steps(st, p, (n - 1) as nat, z, x);
        lemma_steps_inv2(st, q, p, (n - 1) as nat, x, z);
        lemma_inv(st, q, p, z, y);
        lemma_steps_snoc(st, q, (n - 1) as nat, x, z, y);
    }
}
pub proof fn lemma_star_inv(st: Store, q: SHACLPath, p: SHACLPath, x: Term)
    requires is_inv(q, p)
    ensures forall|y: Term| star(st, q, x, y) <==> star(st, p, y, x), forall|y: Term| plus(st, q, x, y) <==> plus(st, p, y, x)
{
    assert forall|y: Term| star(st, q, x, y) <==> star(st, p, y, x) by {
        if star(st, q, x, y) { let n = choose|n: nat| #[trigger] tn(n) && steps(st, q, n, x, y); lemma_steps_inv(st, q, p, n, x, y); }
        if star(st, p, y, x) { let n = choose|n: nat| #[trigger] tn(n) && steps(st, p, n, y, x); lemma_steps_inv2(st, q, p, n, x, y); }
    }
    assert forall|y: Term| plus(st, q, x, y) <==> plus(st, p, y, x) by {
        if plus(st, q, x, y) { let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && steps(st, q, n, x, y); lemma_steps_inv(st, q, p, n, x, y); }
        if plus(st, p, y, x) { let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && steps(st, p, n, y, x); lemma_steps_inv2(st, q, p, n, x, y); }
    }
}
pub proof fn lemma_chain_snoc(st: Store, v: Vec<SHACLPath>, i: nat, j: nat, x: Term, y: Term, w: Term)
    requires i <= j < v@.len(), chain(st, v, i, j, x, y), rel(st, v@[j as int], y, w)
    ensures chain(st, v, i, j + 1, x, w)
    decreases j - i
{
    assert(mid(w));
    if i == j { assert(chain(st, v, i + 1, j + 1, w, w)); }
    else {
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, v@[i as int], x, z) && chain(st, v, i + 1, j, z, y);
        lemma_chain_snoc(st, v, i + 1, j, z, y, w);
    }
}
/// w is v reversed with every member inverted
pub open spec fn inv_rev(w: Vec<SHACLPath>, v: Vec<SHACLPath>) -> bool { w@.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> is_inv(#[trigger] w@[k], v@[v@.len() - 1 - k]) }
pub proof fn lemma_chain_inv(st: Store, w: Vec<SHACLPath>, v: Vec<SHACLPath>, i: nat, j: nat, x: Term, y: Term)
    requires inv_rev(w, v), i <= j <= v@.len(), chain(st, v, i, j, y, x)
    ensures chain(st, w, (v@.len() - j) as nat, (v@.len() - i) as nat, x, y)
    decreases j - i
{
    let n = v@.len();
    if i < j {
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, v@[i as int], y, z) && chain(st, v, i + 1, j, z, x);
        lemma_chain_inv(st, w, v, i + 1, j, x, z);
        assert(is_inv(w@[n - 1 - i], v@[n - 1 - (n - 1 - i)]));
        lemma_inv(st, w@[n - 1 - i], v@[i as int], z, y);
        lemma_chain_snoc(st, w, (n - j) as nat, (n - i - 1) as nat, x, z, y);
    }
}
pub proof fn lemma_chain_inv2(st: Store, w: Vec<SHACLPath>, v: Vec<SHACLPath>, i: nat, j: nat, x: Term, y: Term)
    requires inv_rev(w, v), i <= j <= v@.len(), chain(st, w, i, j, x, y)
    ensures chain(st, v, (v@.len() - j) as nat, (v@.len() - i) as nat, y, x)
    decreases j - i
{
    let n = v@.len();
    if i < j {
        let z = choose|z: Term| #[trigger] mid(z) && rel(st, w@[i as int], x, z) && chain(st, w, i + 1, j, z, y);
        lemma_chain_inv2(st, w, v, i + 1, j, z, y);
        assert(is_inv(w@[i as int], v@[n - 1 - i]));
        lemma_inv(st, w@[i as int], v@[n - 1 - i], x, z);
        lemma_chain_snoc(st, v, (n - j) as nat, (n - i - 1) as nat, y, z, x);
    }
}
/// a suffix of a sequence path
pub proof fn lemma_chain_tail(st: Store, v: Vec<SHACLPath>, w: Vec<SHACLPath>, i: nat, x: Term, y: Term)
    requires w@.len() + 1 == v@.len(), forall|k: int| 0 <= k < w@.len() ==> w@[k] == v@[k + 1], i <= w@.len()
    ensures chain(st, w, i, w@.len() as nat, x, y) <==> chain(st, v, i + 1, v@.len() as nat, x, y)
    decreases w@.len() - i
{
    if i < w@.len() {
        assert forall|z: Term| #[trigger] mid(z) implies (chain(st, w, i + 1, w@.len() as nat, z, y) <==> chain(st, v, i + 2, v@.len() as nat, z, y)) by { lemma_chain_tail(st, v, w, i + 1, z, y); }
        assert(w@[i as int] == v@[i as int + 1]);
    }
}
/// nothing is left to do for a
pub open spec fn done(st: Store, p: SHACLPath, a: Term, s: ISet<Term>) -> bool { forall|b: Term| #[trigger] rel(st, p, a, b) ==> s.contains(b) }
@file rudof_rdf/src/rdf_core/neighs_rdf.rs
@fn NeighsRDF::objects_for r
    ensures r is Ok ==> !t_lit(*$1) && forall|y: Term| r->Ok_0@.contains(y) <==> edge(*self, *$1, *$2, y),
        up(*self) && !t_lit(*$1) ==> r is Ok,
@impl impl Store
@collect 0 TermSet insert
@start
        proof { axiom_subj(); }
@loop 0
        forall|k: int| 0 <= k < $i ==> $acc@.contains(tr_o(#[trigger] $c@[k])),
        forall|y: Term| $acc@.contains(y) ==> exists|k: int| 0 <= k < $i && tr_o(#[trigger] $c@[k]) == y,
@loopafter 0
        proof {
            assert forall|y: Term| $acc@.contains(y) <==> edge(*self, *$1, *$2, y) by {
                if edge(*self, *$1, *$2, y) { assert(hit(*self, subj_of(*$1), *$2, Any, subj_of(*$1), *$2, y)); }
            }
        }
@endfn
@fn NeighsRDF::subjects_for r
    ensures r is Ok ==> forall|x: Term| r->Ok_0@.contains(x) <==> edge(*self, x, *$1, *$2),
        up(*self) ==> r is Ok,
@impl impl Store
@collect 0 TermSet insert
@start
        proof { axiom_subj(); }
@loop 0
        forall|k: int| 0 <= k < $i ==> $acc@.contains(term_of_subj(tr_s(#[trigger] $c@[k]))),
        forall|y: Term| $acc@.contains(y) ==> exists|k: int| 0 <= k < $i && term_of_subj(tr_s(#[trigger] $c@[k])) == y,
@loopafter 0
        proof {
            assert forall|x: Term| $acc@.contains(x) <==> edge(*self, x, *$1, *$2) by {
                if edge(*self, x, *$1, *$2) { assert(hit(*self, Any, *$1, *$2, subj_of(x), *$1, *$2)); }
            }
        }
@endfn
/// a list of paths, each one inverted
pub proof fn lemma_alt_inv(st: Store, w: Vec<SHACLPath>, v: Vec<SHACLPath>, x: Term)
    requires w@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> is_inv(#[trigger] w@[k], v@[k])
    ensures forall|y: Term| rel(st, SHACLPath::Alternative { paths: w }, x, y) <==> rel(st, SHACLPath::Alternative { paths: v }, y, x)
{
    assert forall|y: Term| rel(st, SHACLPath::Alternative { paths: w }, x, y) <==> rel(st, SHACLPath::Alternative { paths: v }, y, x) by {
        assert forall|k: nat| k < v@.len() && #[trigger] tn(k) implies rel(st, w@[k as int], x, y) == rel(st, v@[k as int], y, x) by { assert(is_inv(w@[k as int], v@[k as int])); lemma_inv(st, w@[k as int], v@[k as int], x, y); }
    }
}
pub proof fn lemma_seq_inv(st: Store, w: Vec<SHACLPath>, v: Vec<SHACLPath>, x: Term)
    requires inv_rev(w, v)
    ensures forall|y: Term| rel(st, SHACLPath::Sequence { paths: w }, x, y) <==> rel(st, SHACLPath::Sequence { paths: v }, y, x)
{
    assert forall|y: Term| rel(st, SHACLPath::Sequence { paths: w }, x, y) <==> rel(st, SHACLPath::Sequence { paths: v }, y, x) by {
        let n = v@.len();
        if rel(st, SHACLPath::Sequence { paths: w }, x, y) { assert(chain(st, w, 0, n, x, y)); lemma_chain_inv2(st, w, v, 0, n, x, y); assert(chain(st, v, 0, n, y, x)); }
        if rel(st, SHACLPath::Sequence { paths: v }, y, x) { assert(chain(st, v, 0, n, y, x)); lemma_chain_inv(st, w, v, 0, n, x, y); assert(chain(st, w, 0, n, x, y)); }
    }
}
@fn NeighsRDF::objects_for_shacl_path r
    ensures r is Ok ==> forall|y: Term| r->Ok_0@.contains(y) <==> rel(*self, *$2, *$1, y),
        up(*self) ==> r is Ok,
@impl impl Store
@attrs #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@start
        let ghost full = *$2;
        proof { axiom_subj(); }
@arm SHACLPath::Inverse{path,}
        proof {
            assert(forall|y: Term| (full matches SHACLPath::Inverse { path: vp } && *vp == **path) ==> rel(*self, full, *$1, y) == rel(*self, **path, y, *$1));
            assert(forall|y: Term| (**path matches SHACLPath::Inverse { path: vp }) ==> rel(*self, **path, y, *$1) == rel(*self, *(path->Inverse_path), *$1, y));
        }
@arm SHACLPath::Sequence{paths,}
        proof {
            assert(full is Sequence ==> full == SHACLPath::Sequence { paths: *paths });
            assert forall|y: Term| #[trigger] rel(*self, SHACLPath::Sequence { paths: *paths }, *$1, y) == chain(*self, *paths, 0, paths@.len(), *$1, y) by {}
            assert forall|y: Term| paths@.len() == 0 implies #[trigger] chain(*self, *paths, 0, paths@.len(), *$1, y) == (*$1 == y) by {}
            assert(forall|y: Term| paths@.len() == 0 ==> rel(*self, SHACLPath::Sequence { paths: *paths }, *$1, y) == (*$1 == y));
            assert(full is Sequence && paths@.len() == 0 ==> forall|y: Term| rel(*self, full, *$1, y) == (*$1 == y));
        }
@arm SHACLPath::ZeroOrOne{path,}
        proof {
            assert forall|y: Term| rel(*self, SHACLPath::Inverse { path: *path }, *$1, y) == rel(*self, **path, y, *$1) by { lemma_inv(*self, SHACLPath::Inverse { path: *path }, **path, *$1, y); }
            assert(forall|y: Term| #[trigger] rel(*self, SHACLPath::ZeroOrOne { path: *path }, y, *$1) == (y == *$1 || rel(*self, **path, y, *$1)));
        }
@arm SHACLPath::ZeroOrMore{path,}
        proof { assert(forall|y: Term| #[trigger] rel(*self, SHACLPath::ZeroOrMore { path: *path }, y, *$1) == star(*self, **path, y, *$1)); lemma_star_inv(*self, SHACLPath::Inverse { path: *path }, **path, *$1); lemma_star_0(*self, **path, *$1); }
@arm SHACLPath::OneOrMore{path,}
        proof { assert(forall|y: Term| #[trigger] rel(*self, SHACLPath::OneOrMore { path: *path }, y, *$1) == plus(*self, **path, y, *$1)); lemma_star_inv(*self, SHACLPath::Inverse { path: *path }, **path, *$1); }
@loop 0
        forall|y: Term| all_objects@.contains(y) <==> exists|k: nat| k < $i && #[trigger] tn(k) && rel(*self, $c@[k as int], *$1, y),
@loopend 0
        proof { assert(tn(($i - 1) as nat)); }
@loopbefore 1
        proof {
            assert forall|w: Vec<SHACLPath>, z: Term, y: Term| w@ == rest@ implies (#[trigger] rel(*self, SHACLPath::Sequence { paths: w }, z, y) <==> chain(*self, *paths, 1, paths@.len(), z, y)) by {
                lemma_chain_tail(*self, *paths, w, 0, z, y);
            }
        }
@loop 1
        forall|y: Term| all_objects@.contains(y) <==> exists|k: int| 0 <= k < $i && chain(*self, *paths, 1, paths@.len(), #[trigger] $c@[k], y),
@loopafter 1
        proof {
            assert forall|y: Term| all_objects@.contains(y) <==> chain(*self, *paths, 0, paths@.len(), *$1, y) by {
                if all_objects@.contains(y) {
                    let k = choose|k: int| 0 <= k < $c@.len() && chain(*self, *paths, 1, paths@.len(), #[trigger] $c@[k], y);
                    assert($c@.contains($c@[k]) && mid($c@[k]));
                }
                if chain(*self, *paths, 0, paths@.len(), *$1, y) {
                    let z = choose|z: Term| #[trigger] mid(z) && rel(*self, paths@[0], *$1, z) && chain(*self, *paths, 1, paths@.len(), z, y);
                    assert($c@.contains(z));
                }
            }
            assert(forall|y: Term| all_objects@.contains(y) <==> rel(*self, SHACLPath::Sequence { paths: *paths }, *$1, y));
            assert(forall|y: Term| all_objects@.contains(y) <==> rel(*self, full, *$1, y));
        }
@loop 2
        $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> is_inv(#[trigger] $acc@[k], paths@[k]),
@loopafter 2
        proof { lemma_alt_inv(*self, $acc, *paths, *$1); }
@loop 3
        $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> is_inv(#[trigger] $acc@[k], paths@[paths@.len() - 1 - k]),
@loopafter 3
        proof { lemma_seq_inv(*self, $acc, *paths, *$1); }
@loopbefore 4
        proof { assert(to_process@[0] == *$1); }
@loop 4
        invariant all_objects@.contains(*$1),
        forall|y: Term| all_objects@.contains(y) ==> star(*self, **path, *$1, y),
        forall|k: int| 0 <= k < to_process@.len() ==> all_objects@.contains(#[trigger] to_process@[k]),
        forall|a: Term| all_objects@.contains(a) ==> to_process@.contains(a) || done(*self, **path, a, all_objects@),
        ensures to_process@.len() == 0,
@loopstart 4
        let ghost tp0 = to_process@;
@loopbefore 5
        proof {
            assert(current == tp0[tp0.len() - 1] && all_objects@.contains(current));
            assert forall|a: Term| tp0.contains(a) implies a == current || to_process@.contains(a) by {
                let k = choose|k: int| 0 <= k < tp0.len() && tp0[k] == a;
                if k < tp0.len() - 1 { assert(to_process@[k] == a); }
            }
        }
@loop 5
        all_objects@.contains(*$1),
        forall|y: Term| all_objects@.contains(y) ==> star(*self, **path, *$1, y),
        forall|k: int| 0 <= k < to_process@.len() ==> all_objects@.contains(#[trigger] to_process@[k]),
        forall|a: Term| all_objects@.contains(a) ==> a == current || to_process@.contains(a) || done(*self, **path, a, all_objects@),
        forall|k: int| 0 <= k < $i ==> all_objects@.contains(#[trigger] $c@[k]),
@loopstart 5
        let ghost tp1 = to_process@;
        let ghost all1 = all_objects@;
@loopend 5
        proof {
            let b = $c@[$i - 1];
            assert($c@.contains(b));
            assert(rel(*self, **path, current, b));
            lemma_star_ext(*self, **path, *$1, current, b);
            assert(all_objects@ =~= all1.insert(b));
            if !all1.contains(b) { assert(to_process@ =~= tp1.push(b)); assert(to_process@[tp1.len() as int] == b); } else { assert(to_process@ =~= tp1); }
            assert forall|a: Term| tp1.contains(a) implies to_process@.contains(a) by {
                let k = choose|k: int| 0 <= k < tp1.len() && tp1[k] == a;
                assert(to_process@[k] == a);
            }
            assert forall|a: Term| done(*self, **path, a, all1) implies done(*self, **path, a, all_objects@) by {}
        }
@loopafter 5
        proof {
            assert(done(*self, **path, current, all_objects@)) by {
                assert forall|b: Term| #[trigger] rel(*self, **path, current, b) implies all_objects@.contains(b) by { assert($c@.contains(b)); }
            }
        }
@loopafter 4
        proof {
            assert forall|a: Term| all_objects@.contains(a) implies done(*self, **path, a, all_objects@) by {}
            lemma_star_result(*self, **path, all_objects@, *$1);
        }
@loop 6
        $acc@ =~= $c@.subrange(0, $i as int),
@loopafter 6
        proof {
            assert($acc@ =~= $c@);
            assert forall|y: Term| rel(*self, **path, *$1, y) implies plus(*self, **path, *$1, y) by { lemma_plus_1(*self, **path, *$1, y); }
            assert forall|k: int| 0 <= k < $acc@.len() implies all_objects@.contains(#[trigger] $acc@[k]) by { assert($c@.contains($c@[k])); }
        }
@loopbefore 7
        proof { assert forall|a: Term| all_objects@.contains(a) implies to_process@.contains(a) by {} }
@loop 7
        invariant forall|y: Term| rel(*self, **path, *$1, y) ==> all_objects@.contains(y),
        forall|y: Term| all_objects@.contains(y) ==> plus(*self, **path, *$1, y),
        forall|k: int| 0 <= k < to_process@.len() ==> all_objects@.contains(#[trigger] to_process@[k]),
        forall|a: Term| all_objects@.contains(a) ==> to_process@.contains(a) || done(*self, **path, a, all_objects@),
        ensures to_process@.len() == 0,
@loopstart 7
        let ghost tp0 = to_process@;
@loopbefore 8
        proof {
            assert(current == tp0[tp0.len() - 1] && all_objects@.contains(current));
            assert forall|a: Term| tp0.contains(a) implies a == current || to_process@.contains(a) by {
                let k = choose|k: int| 0 <= k < tp0.len() && tp0[k] == a;
                if k < tp0.len() - 1 { assert(to_process@[k] == a); }
            }
        }
@loop 8
        forall|y: Term| rel(*self, **path, *$1, y) ==> all_objects@.contains(y),
        forall|y: Term| all_objects@.contains(y) ==> plus(*self, **path, *$1, y),
        forall|k: int| 0 <= k < to_process@.len() ==> all_objects@.contains(#[trigger] to_process@[k]),
        forall|a: Term| all_objects@.contains(a) ==> a == current || to_process@.contains(a) || done(*self, **path, a, all_objects@),
        forall|k: int| 0 <= k < $i ==> all_objects@.contains(#[trigger] $c@[k]),
@loopstart 8
        let ghost tp1 = to_process@;
        let ghost all1 = all_objects@;
@loopend 8
        proof {
            let b = $c@[$i - 1];
            assert($c@.contains(b));
            assert(rel(*self, **path, current, b));
            lemma_star_ext(*self, **path, *$1, current, b);
            assert(all_objects@ =~= all1.insert(b));
            if !all1.contains(b) { assert(to_process@ =~= tp1.push(b)); assert(to_process@[tp1.len() as int] == b); } else { assert(to_process@ =~= tp1); }
            assert forall|a: Term| tp1.contains(a) implies to_process@.contains(a) by {
                let k = choose|k: int| 0 <= k < tp1.len() && tp1[k] == a;
                assert(to_process@[k] == a);
            }
            assert forall|a: Term| done(*self, **path, a, all1) implies done(*self, **path, a, all_objects@) by {}
        }
@loopafter 8
        proof {
            assert(done(*self, **path, current, all_objects@)) by {
                assert forall|b: Term| #[trigger] rel(*self, **path, current, b) implies all_objects@.contains(b) by { assert($c@.contains(b)); }
            }
        }
@loopafter 7
        proof {
            assert forall|a: Term| all_objects@.contains(a) implies done(*self, **path, a, all_objects@) by {}
            lemma_plus_result(*self, **path, all_objects@, *$1);
        }
@endfn
