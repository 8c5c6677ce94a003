@subst-type MandatoryValues Either<Vec<DerivError>,Vec<Key>>
@remap-method extend fnmut:vx_extend
@byval-iter results
pub enum Either<L, R> { Left(L), Right(R) }
impl<L, R> Clone for Either<L, R> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
pub open spec fn nullable(e: Rbe) -> bool { lang(e, Multiset::empty()) }
pub open spec fn mv_ok(e: Rbe, r: Either<Vec<DerivError>, Vec<Key>>) -> bool {
    (r matches Either::Right(v) ==> (v@.len() == 0 <==> nullable(e))) && (r matches Either::Left(es) ==> es@.len() > 0 && !nullable(e))
}
pub proof fn lemma_nullable_rules(e: Rbe)
    requires wf(e)
    ensures
        e matches Rbe::And { values } ==> (nullable(e) <==> forall|j: int| 0 <= j < values@.len() ==> nullable(#[trigger] values@[j])),
        e is Or ==> forall|j: int| 0 <= j < e->Or_values@.len() && nullable(#[trigger] e->Or_values@[j]) ==> nullable(e),
        e is Or ==> ((forall|j: int| 0 <= j < e->Or_values@.len() ==> !nullable(#[trigger] e->Or_values@[j])) ==> !nullable(e)),
        e is Star ==> nullable(e),
        e matches Rbe::Plus { value } ==> (nullable(e) <==> nullable(*value)),
        e matches Rbe::Repeat { value, card } ==> (nullable(e) <==> card.min.value == 0 || nullable(*value)),
{
    broadcast use group_multiset_axioms;
    match e {
        Rbe::And { values } => { lemma_and_nullable(values, 0); }
        Rbe::Star { value } => { lemma_pow_nullable(*value, 0); assert(tn(0)); }
        Rbe::Plus { value } => { assert(tn(1)); lemma_pow_nullable(*value, 1); assert forall|n: nat| #[trigger] tn(n) && n >= 1 && lang_pow(*value, n, Multiset::empty()) implies nullable(*value) by { lemma_pow_nullable(*value, n); } }
        Rbe::Repeat { value, card } => { assert(tn(card.min.value as nat)); lemma_pow_nullable(*value, card.min.value as nat); assert forall|n: nat| #[trigger] tn(n) && n >= 1 && lang_pow(*value, n, Multiset::empty()) implies nullable(*value) by { lemma_pow_nullable(*value, n); } }
        _ => {}
    }
}
@file rbe/src/rbe.rs
@fn Rbe::mandatory_values r
    requires wf(*self)
    ensures mv_ok(*self, r)
    decreases self
@attrs #[verifier::loop_isolation(false)]
@start
    broadcast use group_multiset_axioms;
    proof { lemma_nullable_rules(*self); }
@loop 0
    invariant
        errors@.len() == 0 && mandatory@.len() == 0 <==> forall|j: int| 0 <= j < $i ==> nullable(#[trigger] $c@[j]),
        forall|j: int| 0 <= j < $c@.len() ==> wf(#[trigger] $c@[j]),
@loop 1
    invariant
        $acc@.len() == $i,
        forall|j: int| 0 <= j < $i ==> mv_ok($c@[j], #[trigger] $acc@[j]),
        forall|j: int| 0 <= j < $c@.len() ==> wf(#[trigger] $c@[j]),
@loop 2
    invariant
        !$acc ==> forall|j: int| 0 <= j < $i ==> !(#[trigger] $c@[j] matches Either::Right(vs) && vs@.len() == 0),
        $acc ==> exists|j: int| 0 <= j < $i && (#[trigger] $c@[j] matches Either::Right(vs) && vs@.len() == 0),
@loopafter 2
    proof { assert forall|j: int| 0 <= j < values@.len() implies mv_ok(values@[j], #[trigger] $c@[j]) by {} }
    proof { assert(forall|j: int| 0 <= j < values@.len() ==> (#[trigger] lang(values@[j], Multiset::empty()) <==> ($c@[j] matches Either::Right(vs) && vs@.len() == 0))); }
@loop 3
    invariant
        $i > 0 ==> errors@.len() > 0 || mandatory@.len() > 0,
        forall|j: int| 0 <= j < values@.len() ==> !(#[trigger] lang(values@[j], Multiset::empty())),
        forall|j: int| 0 <= j < values@.len() ==> mv_ok(values@[j], #[trigger] $c@[j]),
@endfn
@fn Rbe::is_nullable r
    requires wf(*self)
    ensures r <==> lang(*self, Multiset::empty())
@endfn
@fn Rbe::bigger r
    ensures r == !le_max($1.value as int, *$2)
@endfn
@fn Rbe::mk_range_symbol r
    ensures
        forall|m: MS| #[trigger] lang(r, m) <==> lang(Rbe::Symbol { value: *$1, card: *$2 }, m),
        forall|k: Key| #[trigger] syms(r, k) ==> k == *$1, wf(r),
@endfn
@fn Rbe::mk_and r
    ensures
        forall|m: MS| #[trigger] lang(r, m) <==> lang2(*$1, *$2, m),
        forall|k: Key| #[trigger] syms(r, k) ==> syms(*$1, k) || syms(*$2, k),
        wf(*$1) && wf(*$2) ==> wf(r),
@start
    broadcast use group_multiset_axioms;
    proof {
        reveal_with_fuel(lang_and, 4);
        assert forall|m: MS| *$1 is Empty implies #[trigger] lang2(*$1, *$2, m) == lang(*$2, m) by { lemma_split_empty(m); if lang2(*$1, *$2, m) { let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(*$1, p) && lang(*$2, q); assert(m =~= q); } }
        assert forall|m: MS| *$2 is Empty implies #[trigger] lang2(*$1, *$2, m) == lang(*$1, m) by { lemma_split_empty(m); if lang2(*$1, *$2, m) { let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(*$1, p) && lang(*$2, q); assert(m =~= p); } }
        assert forall|v: Vec<Rbe>, m: MS| v@.len() == 2 && v@[0] == *$1 && v@[1] == *$2 implies #[trigger] lang(Rbe::And { values: v }, m) == lang2(*$1, *$2, m) by { lemma_and_two(v, m); }
        assert forall|v: Vec<Rbe>, k: Key| v@.len() == 2 && v@[0] == *$1 && v@[1] == *$2 implies #[trigger] syms(Rbe::And { values: v }, k) == (syms(*$1, k) || syms(*$2, k)) by { lemma_syms_two(v, k); }
    }
@endfn
pub proof fn lemma_and_two(v: Vec<Rbe>, m: MS)
    requires v@.len() == 2
    ensures lang(Rbe::And { values: v }, m) == lang2(v@[0], v@[1], m)
{
    broadcast use group_multiset_axioms;
    assert forall|b: MS| lang_and(v, 1, b) == lang(v@[1], b) by {
        lemma_split_empty(b);
        if lang_and(v, 1, b) { let (p, q) = choose|p: MS, q: MS| #[trigger] split(b, p, q) && lang(v@[1], p) && lang_and(v, 2, q); assert(b =~= p); }
        if lang(v@[1], b) { assert(split(b, b, Multiset::empty()) && lang_and(v, 2, Multiset::empty())); }
    }
    assert(lang(Rbe::And { values: v }, m) == lang_and(v, 0, m));
    if lang_and(v, 0, m) { let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(v@[0], p) && lang_and(v, 1, q); assert(lang2(v@[0], v@[1], m)); }
    if lang2(v@[0], v@[1], m) { let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(v@[0], p) && lang(v@[1], q); assert(lang_and(v, 1, q)); assert(lang_and(v, 0, m)); }
}
pub proof fn lemma_or_two(v: Vec<Rbe>, m: MS)
    requires v@.len() == 2
    ensures lang(Rbe::Or { values: v }, m) == (lang(v@[0], m) || lang(v@[1], m))
{
    if lang(Rbe::Or { values: v }, m) { let i = choose|i: int| 0 <= i < v@.len() && lang(#[trigger] v@[i], m); assert(i == 0 || i == 1); }
    let e = Rbe::Or { values: v };
    assert(e->Or_values@[0] == v@[0]); assert(e->Or_values@[1] == v@[1]);
}
pub proof fn lemma_syms_two(v: Vec<Rbe>, k: Key)
    requires v@.len() == 2
    ensures syms(Rbe::And { values: v }, k) == (syms(v@[0], k) || syms(v@[1], k)), syms(Rbe::Or { values: v }, k) == (syms(v@[0], k) || syms(v@[1], k))
{
    let e = Rbe::Or { values: v }; let f = Rbe::And { values: v };
    assert(e->Or_values@[0] == v@[0]); assert(e->Or_values@[1] == v@[1]);
    assert(f->And_values@[0] == v@[0]); assert(f->And_values@[1] == v@[1]);
    if syms(Rbe::And { values: v }, k) { let i = choose|i: int| 0 <= i < v@.len() && syms(#[trigger] v@[i], k); assert(i == 0 || i == 1); }
    if syms(Rbe::Or { values: v }, k) { let i = choose|i: int| 0 <= i < v@.len() && syms(#[trigger] v@[i], k); assert(i == 0 || i == 1); }
}
@fn Rbe::mk_or r
    ensures
        forall|m: MS| #[trigger] lang(r, m) <==> lang(*$1, m) || lang(*$2, m),
        forall|k: Key| #[trigger] syms(r, k) ==> syms(*$1, k) || syms(*$2, k),
        wf(*$1) && wf(*$2) ==> wf(r),
@start
    proof {
        assert forall|v: Vec<Rbe>, m: MS| v@.len() == 2 && v@[0] == *$1 && v@[1] == *$2 implies #[trigger] lang(Rbe::Or { values: v }, m) == (lang(*$1, m) || lang(*$2, m)) by { lemma_or_two(v, m); }
        assert forall|v: Vec<Rbe>, k: Key| v@.len() == 2 && v@[0] == *$1 && v@[1] == *$2 implies #[trigger] syms(Rbe::Or { values: v }, k) == (syms(*$1, k) || syms(*$2, k)) by { lemma_syms_two(v, k); }
    }
@endfn
/// `r` accepts what some member of `s` accepts
pub open spec fn or_res(s: Seq<Rbe>, r: Rbe) -> bool {
    &&& forall|m: MS| #[trigger] lang(r, m) <==> exists|i: int| 0 <= i < s.len() && lang(#[trigger] s[i], m)
    &&& forall|k: Key| #[trigger] syms(r, k) ==> exists|i: int| 0 <= i < s.len() && syms(#[trigger] s[i], k)
}
@fn Rbe::mk_or_values r
    ensures
        or_res($1@, r),
        (forall|i: int| 0 <= i < $1@.len() ==> wf(#[trigger] $1@[i])) ==> wf(r),
@argty 1 Vec<Rbe>
@loop 0
    invariant
        forall|m: MS| #[trigger] lang($acc, m) <==> exists|j: int| 0 <= j < $i && lang(#[trigger] $c@[j], m),
        forall|k: Key| #[trigger] syms($acc, k) ==> exists|j: int| 0 <= j < $i && syms(#[trigger] $c@[j], k),
        (forall|j: int| 0 <= j < $i ==> wf(#[trigger] $c@[j])) ==> wf($acc),
@endfn
@fn Rbe::mk_range r
    requires wf(*$1), le_max($2.min.value as int, $2.max)
    ensures
        !(*$1 is Fail) ==> forall|m: MS| #[trigger] lang(r, m) <==> exists|n: nat| #[trigger] tn(n) && lang_pow(*$1, n, m) && card_has(*$2, n as int),
        forall|k: Key| #[trigger] syms(r, k) ==> syms(*$1, k), wf(r),
@start
    broadcast use group_multiset_axioms;
    proof {
        assert(tn(0)); assert(tn(1)); assert(tn($2.min.value as nat));
        assert forall|m: MS| #[trigger] lang_pow(*$1, 1, m) <==> lang(*$1, m) by { lemma_pow_one(*$1, m); }
        if *$1 is Empty { assert forall|n: nat, m: MS| #[trigger] lang_pow(*$1, n, m) <==> m =~= Multiset::<Key>::empty() by { lemma_pow_empty(*$1, n); } }
        if $2.max == Max::IntMax(1) && $2.min.value == 1 { assert forall|m: MS| (exists|n: nat| #[trigger] tn(n) && lang_pow(*$1, n, m) && card_has(*$2, n as int)) <==> #[trigger] lang(*$1, m) by { assert(lang_pow(*$1, 1, m) <==> lang(*$1, m)); } }
        assert forall|v: Box<Rbe>, m: MS| *v == *$1 implies (#[trigger] lang(Rbe::Repeat { value: v, card: *$2 }, m) <==> exists|n: nat| #[trigger] tn(n) && lang_pow(*$1, n, m) && card_has(*$2, n as int)) by {}
    }
@endfn
