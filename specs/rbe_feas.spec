// ---- feasibility: a refuted partial bag has no accepted completion ----
@subst-type HashMap KeyMap
@erase-generics KeyMap HashMap Feasibility
#[verifier::external_body]
pub struct KeyMap { x: u64 }
impl View for KeyMap { type V = IMap<Key, usize>; uninterp spec fn view(&self) -> IMap<Key, usize>; }
impl KeyMap {
    #[verifier::external_body] pub fn get(&self, k: &Key) -> (r: Option<&usize>)
        ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
}
pub open spec fn at(m: KeyMap, k: Key) -> int { if m@.dom().contains(k) { m@[k] as int } else { 0 } }
@file rbe/src/feasibility.rs
@type struct Feasibility life
pub open spec fn zero_s(lo: KeyMap, e: Rbe) -> bool { forall|k: Key| #[trigger] syms(e, k) ==> at(lo, k) == 0 }
pub open spec fn within(lo: KeyMap, hi: KeyMap, e: Rbe, c: MS) -> bool { forall|k: Key| #[trigger] syms(e, k) ==> at(lo, k) <= c.count(k) <= at(hi, k) }
/// `c` is an accepted completion
pub open spec fn wit(lo: KeyMap, hi: KeyMap, e: Rbe, c: MS) -> bool { lang(e, c) && within(lo, hi, e, c) }
/// `c` is a completion made of `q >= 1` accepted bags
pub open spec fn wit_pow(lo: KeyMap, hi: KeyMap, e: Rbe, q: nat, c: MS) -> bool { q >= 1 && lang_pow(e, q, c) && within(lo, hi, e, c) }
/// `c` is an accepted bag that fits the upper bounds
pub open spec fn wit_once(hi: KeyMap, e: Rbe, c: MS) -> bool { lang(e, c) && forall|k: Key| #[trigger] syms(e, k) ==> c.count(k) <= at(hi, k) }
pub proof fn lemma_restr_lang(e: Rbe, c: MS)
    requires lang(e, c)
    ensures restr(c, e) == c
{
    lemma_restr(c, e);
    assert forall|k: Key| restr(c, e).count(k) == c.count(k) by { if !syms(e, k) { lemma_support(e, c, k); } }
    assert(restr(c, e) =~= c);
}
pub proof fn lemma_restr_pow(e: Rbe, q: nat, c: MS)
    requires lang_pow(e, q, c)
    ensures restr(c, e) == c
{
    lemma_restr(c, e);
    assert forall|k: Key| restr(c, e).count(k) == c.count(k) by { if !syms(e, k) { lemma_support_pow(e, q, c, k); } }
    assert(restr(c, e) =~= c);
}
/// members of a group see their own part of the bag
pub proof fn lemma_and_parts(e: Rbe, q: nat, c: MS)
    requires e is And, sorbe(e), lang_pow(e, q, c)
    ensures forall|i: int| 0 <= i < e->And_values@.len() ==> lang_pow(#[trigger] e->And_values@[i], q, restr(c, e->And_values@[i]))
{ lemma_restr_pow(e, q, c); lemma_and_interval(e->And_values, q, c); }
pub open spec fn pow_some(e: Rbe, c: MS) -> bool { exists|q: nat| #[trigger] tn(q) && lang_pow(e, q, c) }
pub proof fn lemma_or_parts_upto(s: Seq<Rbe>, n: int, q: nat, c: MS)
    requires 0 <= n <= s.len(), or_has(s, n, q, c)
    ensures forall|i: int| 0 <= i < n ==> pow_some(#[trigger] s[i], restr(c, s[i]))
    decreases n
{
    if n > 0 {
        let (k1, k2) = choose|k1: nat, k2: nat| k1 + k2 == q && #[trigger] tn2(k1, k2) && or_has(s, n - 1, k1, c) && lang_pow(s[n - 1], k2, restr(c, s[n - 1]));
        lemma_or_parts_upto(s, n - 1, k1, c);
        assert(tn(k2));
    }
}
pub proof fn lemma_or_parts(e: Rbe, q: nat, c: MS)
    requires e is Or, sorbe(e), e->Or_values@.len() > 0, lang_pow(e, q, c)
    ensures forall|i: int| 0 <= i < e->Or_values@.len() ==> pow_some(#[trigger] e->Or_values@[i], restr(c, e->Or_values@[i]))
{ lemma_restr_pow(e, q, c); lemma_or_interval(e->Or_values, q, c); lemma_or_parts_upto(e->Or_values@, e->Or_values@.len() as int, q, c); }
pub proof fn lemma_part_within(lo: KeyMap, hi: KeyMap, e: Rbe, v: Rbe, c: MS)
    requires within(lo, hi, e, c), forall|k: Key| #[trigger] syms(v, k) ==> syms(e, k)
    ensures within(lo, hi, v, restr(c, v))
{ lemma_restr(c, v); }
/// a sum of at least one bag contains an accepted bag
pub proof fn lemma_pow_once(hi: KeyMap, e: Rbe, q: nat, c: MS) -> (a: MS)
    requires q >= 1, lang_pow(e, q, c), forall|k: Key| #[trigger] syms(e, k) ==> c.count(k) <= at(hi, k)
    ensures wit_once(hi, e, a)
{
    broadcast use group_multiset_axioms;
    let (a, b) = choose|a: MS, b: MS| #[trigger] split(c, a, b) && lang(e, a) && lang_pow(e, (q - 1) as nat, b);
    assert forall|k: Key| #[trigger] syms(e, k) implies a.count(k) <= at(hi, k) by { assert(c.count(k) == a.add(b).count(k)); }
    a
}
pub open spec fn fx_ok(lo: KeyMap, hi: KeyMap, e: Rbe, r: bool) -> bool { !r ==> forall|c: MS| !#[trigger] wit(lo, hi, e, c) }
pub open spec fn fi_ok(lo: KeyMap, hi: KeyMap, e: Rbe, r: bool) -> bool { !r ==> forall|q: nat, c: MS| !#[trigger] wit_pow(lo, hi, e, q, c) }
pub open spec fn once_ok(hi: KeyMap, e: Rbe, r: bool) -> bool { !r ==> forall|c: MS| !#[trigger] wit_once(hi, e, c) }
/// iterations of the body of a group
pub proof fn lemma_rep_parts(lo: KeyMap, hi: KeyMap, e: Rbe, j: nat, c: MS)
    requires e is Star || e is Plus || e is Repeat, lang_pow(rep_value(e), j, c), within(lo, hi, e, c)
    ensures
        j == 0 ==> zero_s(lo, rep_value(e)),
        j >= 1 ==> wit_pow(lo, hi, rep_value(e), j, c) && exists|a: MS| #[trigger] wit_once(hi, rep_value(e), a),
{
    let v = rep_value(e);
    assert forall|k: Key| #[trigger] syms(v, k) implies at(lo, k) <= c.count(k) <= at(hi, k) by { assert(syms(e, k)); }
    if j == 0 { assert forall|k: Key| #[trigger] syms(v, k) implies at(lo, k) == 0 by { assert(c.count(k) == 0); } }
    if j >= 1 { let a = lemma_pow_once(hi, v, j, c); }
}
/// what refutations of the body imply for the group
pub proof fn lemma_rep_feas(lo: KeyMap, hi: KeyMap, e: Rbe)
    requires e is Star || e is Plus || e is Repeat, wf(e), sorbe(e)
    ensures
        forall|f: bool| #[trigger] fi_ok(lo, hi, rep_value(e), f) && !f ==> {
            &&& !zero_s(lo, rep_value(e)) || e is Plus || e is Repeat && rep_card(e).min.value >= 1 ==> fx_ok(lo, hi, e, false)
            &&& e is Plus || e is Repeat && rep_card(e).min.value >= 1 ==> fi_ok(lo, hi, e, false)
        },
        forall|o: bool| #[trigger] once_ok(hi, rep_value(e), o) && !o ==> {
            &&& !zero_s(lo, rep_value(e)) || e is Plus || e is Repeat && rep_card(e).min.value >= 1 ==> fx_ok(lo, hi, e, false)
            &&& e is Plus || e is Repeat && rep_card(e).min.value >= 1 ==> fi_ok(lo, hi, e, false)
        },
        forall|f: bool| #[trigger] fi_ok(lo, hi, rep_value(e), f) && !f && !zero_s(lo, rep_value(e)) ==> fi_ok(lo, hi, e, false),
        forall|f: bool| #[trigger] fx_ok(lo, hi, rep_value(e), f) && !f && !zero_s(lo, rep_value(e)) && e is Repeat && rep_card(e).max == Max::IntMax(1) ==> fx_ok(lo, hi, e, false),
        e is Repeat && rep_card(e).max == Max::IntMax(0) && !zero_s(lo, rep_value(e)) ==> fx_ok(lo, hi, e, false) && fi_ok(lo, hi, e, false),
        forall|o: bool| #[trigger] once_ok(hi, rep_value(e), o) && !o && (e is Plus || e is Repeat && rep_card(e).min.value >= 1) ==> once_ok(hi, e, false),
{
    let v = rep_value(e); let cd = rep_card(e);
    // exact: lang(e, c) gives iterations of the body
    assert forall|c: MS| #[trigger] wit(lo, hi, e, c) implies exists|j: nat| #[trigger] tn(j) && lang_pow(v, j, c) && card_has(cd, j as int) && (j == 0 ==> zero_s(lo, v)) && (j >= 1 ==> wit_pow(lo, hi, v, j, c) && exists|a: MS| #[trigger] wit_once(hi, v, a)) by {
        let j = choose|j: nat| card_has(cd, j as int) && #[trigger] tn(j) && lang_pow(v, j, c);
        lemma_rep_parts(lo, hi, e, j, c);
    }
    assert forall|q: nat, c: MS| #[trigger] wit_pow(lo, hi, e, q, c) implies exists|j: nat| #[trigger] tn(j) && gcard(cd, q as int, j as int) && (j == 0 ==> zero_s(lo, v)) && (j >= 1 ==> wit_pow(lo, hi, v, j, c) && exists|a: MS| #[trigger] wit_once(hi, v, a)) by {
        lemma_group_pow(e, q, c);
        let j = choose|j: nat| gcard(cd, q as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, c);
        lemma_rep_parts(lo, hi, e, j, c);
    }
    assert forall|q: int, j: int| q >= 1 && cd.min.value >= 1 && #[trigger] gcard(cd, q, j) implies j >= 1 by { assert(q * cd.min.value >= 1) by(nonlinear_arith) requires q >= 1, cd.min.value >= 1; }
    assert forall|q: int, j: int| j >= 0 && cd.max == Max::IntMax(0) && #[trigger] gcard(cd, q, j) implies j == 0 by { assert(q * 0 == 0) by(nonlinear_arith); }
    if e is Repeat && cd.max == Max::IntMax(1) {
        assert forall|c: MS| #[trigger] wit(lo, hi, e, c) && !zero_s(lo, v) implies wit(lo, hi, v, c) by {
            let j = choose|j: nat| #[trigger] tn(j) && lang_pow(v, j, c) && card_has(cd, j as int) && (j == 0 ==> zero_s(lo, v)) && (j >= 1 ==> wit_pow(lo, hi, v, j, c) && exists|a: MS| #[trigger] wit_once(hi, v, a));
            assert(j == 1);
            lemma_pow_one(v, c);
        }
    }
    assert forall|o: bool| #[trigger] once_ok(hi, v, o) && !o && (e is Plus || e is Repeat && cd.min.value >= 1) implies once_ok(hi, e, false) by {
        assert forall|c: MS| !#[trigger] wit_once(hi, e, c) by {
            if wit_once(hi, e, c) {
                let j = choose|j: nat| card_has(cd, j as int) && #[trigger] tn(j) && lang_pow(v, j, c);
                assert forall|k: Key| #[trigger] syms(v, k) implies c.count(k) <= at(hi, k) by { assert(syms(e, k)); }
                let a = lemma_pow_once(hi, v, j, c);
            }
        }
    }
}
/// members of conjunctions and disjunctions
pub proof fn lemma_and_feas(lo: KeyMap, hi: KeyMap, e: Rbe, i: int)
    requires e is And, sorbe(e), 0 <= i < e->And_values@.len()
    ensures
        fx_ok(lo, hi, e->And_values@[i], false) ==> fx_ok(lo, hi, e, false),
        fi_ok(lo, hi, e->And_values@[i], false) ==> fi_ok(lo, hi, e, false),
        once_ok(hi, e->And_values@[i], false) ==> once_ok(hi, e, false),
{
    let v = e->And_values@[i];
    assert forall|k: Key| #[trigger] syms(v, k) implies syms(e, k) by {}
    assert forall|q: nat, c: MS| #[trigger] wit_pow(lo, hi, e, q, c) implies wit_pow(lo, hi, v, q, restr(c, v)) by { lemma_and_parts(e, q, c); lemma_part_within(lo, hi, e, v, c); }
    assert forall|c: MS| #[trigger] wit(lo, hi, e, c) implies wit(lo, hi, v, restr(c, v)) by { lemma_pow_one(e, c); lemma_and_parts(e, 1, c); lemma_pow_one(v, restr(c, v)); lemma_part_within(lo, hi, e, v, c); }
    assert forall|c: MS| #[trigger] wit_once(hi, e, c) implies wit_once(hi, v, restr(c, v)) by { lemma_pow_one(e, c); lemma_and_parts(e, 1, c); lemma_pow_one(v, restr(c, v)); lemma_restr(c, v); }
}
pub proof fn lemma_or_fi(lo: KeyMap, hi: KeyMap, e: Rbe, i: int)
    requires e is Or, sorbe(e), 0 <= i < e->Or_values@.len(), !zero_s(lo, e->Or_values@[i]), fi_ok(lo, hi, e->Or_values@[i], false)
    ensures fi_ok(lo, hi, e, false)
{
    let v = e->Or_values@[i];
    assert forall|k: Key| #[trigger] syms(v, k) implies syms(e, k) by {}
    assert forall|q: nat, c: MS| !#[trigger] wit_pow(lo, hi, e, q, c) by {
        if wit_pow(lo, hi, e, q, c) {
            lemma_or_parts(e, q, c); lemma_part_within(lo, hi, e, v, c);
            assert(pow_some(v, restr(c, v)));
            let j = choose|j: nat| #[trigger] tn(j) && lang_pow(v, j, restr(c, v));
            if j == 0 { assert forall|k: Key| #[trigger] syms(v, k) implies at(lo, k) == 0 by { assert(restr(c, v).count(k) == 0); } }
            else { assert(wit_pow(lo, hi, v, j, restr(c, v))); }
        }
    }
}
/// branch `i` may be the chosen one
pub open spec fn or_branch(lo: KeyMap, s: Seq<Rbe>, i: int) -> bool { forall|j: int| 0 <= j < s.len() && j != i ==> zero_s(lo, #[trigger] s[j]) }
pub proof fn lemma_or_fx(lo: KeyMap, hi: KeyMap, e: Rbe)
    requires e is Or, sorbe(e), forall|i: int| 0 <= i < e->Or_values@.len() ==> fx_ok(lo, hi, #[trigger] e->Or_values@[i], false) || !or_branch(lo, e->Or_values@, i)
    ensures fx_ok(lo, hi, e, false)
{
    let s = e->Or_values@;
    assert forall|c: MS| !#[trigger] wit(lo, hi, e, c) by {
        if wit(lo, hi, e, c) {
            let i = choose|i: int| 0 <= i < s.len() && lang(#[trigger] s[i], c);
            assert forall|k: Key| #[trigger] syms(s[i], k) implies syms(e, k) by {}
            assert(wit(lo, hi, s[i], c));
            assert(!or_branch(lo, s, i));
            let j = choose|j: int| 0 <= j < s.len() && j != i && !zero_s(lo, #[trigger] s[j]);
            let k = choose|k: Key| #[trigger] syms(s[j], k) && at(lo, k) != 0;
            assert(syms(e, k));
            assert(!syms(s[i], k));
            lemma_support(s[i], c, k);
        }
    }
}
pub proof fn lemma_or_once(hi: KeyMap, e: Rbe)
    requires e is Or, forall|i: int| 0 <= i < e->Or_values@.len() ==> once_ok(hi, #[trigger] e->Or_values@[i], false)
    ensures once_ok(hi, e, false)
{
    let s = e->Or_values@;
    assert forall|c: MS| !#[trigger] wit_once(hi, e, c) by {
        if wit_once(hi, e, c) {
            let i = choose|i: int| 0 <= i < s.len() && lang(#[trigger] s[i], c);
            assert forall|k: Key| #[trigger] syms(s[i], k) implies syms(e, k) by {}
            assert(wit_once(hi, s[i], c));
        }
    }
}
pub proof fn lemma_sym_feas(lo: KeyMap, hi: KeyMap, e: Rbe)
    requires e is Symbol
    ensures
        at(hi, e->Symbol_value) < e->Symbol_card.min.value || !le_max(at(lo, e->Symbol_value), e->Symbol_card.max) ==> fx_ok(lo, hi, e, false),
        at(hi, e->Symbol_value) < e->Symbol_card.min.value || at(lo, e->Symbol_value) != 0 && e->Symbol_card.max == Max::IntMax(0) ==> fi_ok(lo, hi, e, false),
        at(hi, e->Symbol_value) < e->Symbol_card.min.value ==> once_ok(hi, e, false),
{
    let v = e->Symbol_value; let c0 = e->Symbol_card;
    assert(syms(e, v));
    assert forall|q: nat, c: MS| #[trigger] wit_pow(lo, hi, e, q, c) implies c.count(v) >= c0.min.value && (c0.max == Max::IntMax(0) ==> c.count(v) == 0) by {
        assert forall|x: Key| x != v implies #[trigger] c.count(x) == 0 by { lemma_support_pow(e, q, c, x); }
        lemma_sym_pow(v, c0, q, c);
        assert(q * c0.min.value >= c0.min.value) by(nonlinear_arith) requires q >= 1, c0.min.value >= 0;
        if c0.max == Max::IntMax(0) { assert(q * 0 == 0) by(nonlinear_arith); }
    }
}
pub open spec fn kids(e: Rbe) -> Seq<Rbe> { match e { Rbe::And { values } => values@, Rbe::Or { values } => values@, _ => Seq::empty() } }
pub proof fn lemma_kid_syms(e: Rbe, k: Key)
    requires e is And || e is Or
    ensures syms(e, k) ==> exists|i: int| 0 <= i < kids(e).len() && syms(#[trigger] kids(e)[i], k), forall|i: int| 0 <= i < kids(e).len() && syms(#[trigger] kids(e)[i], k) ==> syms(e, k)
{
    match e {
        Rbe::And { values } => { if syms(e, k) { let i = choose|i: int| 0 <= i < values@.len() && syms(#[trigger] values@[i], k); assert(syms(kids(e)[i], k)); } assert forall|i: int| 0 <= i < kids(e).len() && syms(#[trigger] kids(e)[i], k) implies syms(e, k) by { assert(syms(values@[i], k)); } }
        Rbe::Or { values } => { if syms(e, k) { let i = choose|i: int| 0 <= i < values@.len() && syms(#[trigger] values@[i], k); assert(syms(kids(e)[i], k)); } assert forall|i: int| 0 <= i < kids(e).len() && syms(#[trigger] kids(e)[i], k) implies syms(e, k) by { assert(syms(values@[i], k)); } }
        _ => {}
    }
}
pub proof fn lemma_zero_kids(lo: KeyMap, e: Rbe)
    requires e is And || e is Or
    ensures zero_s(lo, e) <==> forall|j: int| 0 <= j < kids(e).len() ==> zero_s(lo, #[trigger] kids(e)[j])
{
    if zero_s(lo, e) { assert forall|j: int| 0 <= j < kids(e).len() implies zero_s(lo, #[trigger] kids(e)[j]) by { assert forall|k: Key| #[trigger] syms(kids(e)[j], k) implies at(lo, k) == 0 by { lemma_kid_syms(e, k); } } }
    if forall|j: int| 0 <= j < kids(e).len() ==> zero_s(lo, #[trigger] kids(e)[j]) { assert forall|k: Key| #[trigger] syms(e, k) implies at(lo, k) == 0 by { lemma_kid_syms(e, k); } }
}
pub proof fn lemma_fail_feas(lo: KeyMap, hi: KeyMap, e: Rbe)
    requires e is Fail
    ensures fx_ok(lo, hi, e, false), fi_ok(lo, hi, e, false), once_ok(hi, e, false)
{ assert forall|q: nat, c: MS| !#[trigger] wit_pow(lo, hi, e, q, c) by { reveal_with_fuel(lang_pow, 2); } }
@file rbe/src/feasibility.rs
@fn Feasibility::lo r
@impl impl<'a> Feasibility<'a>
    ensures r == at(*self.lo, *$1)
@endfn
@fn Feasibility::hi r
@impl impl<'a> Feasibility<'a>
    ensures r == at(*self.hi, *$1)
@endfn
@fn Feasibility::zero r
@impl impl<'a> Feasibility<'a>
    ensures r == zero_s(*self.lo, *$1)
    decreases $1
@attrs #[verifier::loop_isolation(false)]
@start
    proof { if *$1 is Symbol { assert(syms(*$1, $1->Symbol_value)); } if *$1 is Star || *$1 is Plus || *$1 is Repeat { assert forall|k: Key| #![trigger syms(*$1, k)] #![trigger syms(rep_value(*$1), k)] syms(*$1, k) <==> syms(rep_value(*$1), k) by {} } }
@loopafter 0
    proof { lemma_zero_kids(*self.lo, *$1); }
@loopafter 1
    proof { lemma_zero_kids(*self.lo, *$1); }
@leaf
    proof { assert(vx_leaf == zero_s(*self.lo, *$1)); }
@loop 0
    invariant *$1 is And || *$1 is Or, $c@ == kids(*$1), $acc <==> forall|j: int| 0 <= j < $i ==> zero_s(*self.lo, #[trigger] kids(*$1)[j])
@loop 1
    invariant *$1 is And || *$1 is Or, $c@ == kids(*$1), $acc <==> forall|j: int| 0 <= j < $i ==> zero_s(*self.lo, #[trigger] kids(*$1)[j])
@endfn
@fn Feasibility::once r
@impl impl<'a> Feasibility<'a>
    requires wf(*$1), sorbe(*$1)
    ensures once_ok(*self.hi, *$1, r)
    decreases $1
@attrs #[verifier::loop_isolation(false)]
@start
    proof { if *$1 is Star || *$1 is Plus || *$1 is Repeat { lemma_rep_feas(*self.lo, *self.hi, *$1); } if *$1 is Symbol { lemma_sym_feas(*self.lo, *self.hi, *$1); } if *$1 is Fail { lemma_fail_feas(*self.lo, *self.hi, *$1); } }
@leaf
    proof { assert(once_ok(*self.hi, *$1, vx_leaf)); }
@loop 0
    invariant *$1 is And, $c@ == $1->And_values@, once_ok(*self.hi, *$1, $acc)
@loopend 0
    proof { if !$acc { lemma_and_feas(*self.lo, *self.hi, *$1, $i - 1); } }
@loop 1
    invariant *$1 is Or, $c@ == $1->Or_values@, !$acc ==> forall|j: int| 0 <= j < $i ==> once_ok(*self.hi, #[trigger] $c@[j], false)
@loopafter 1
    proof { if !$acc { lemma_or_once(*self.hi, *$1); } }
@endfn
@fn Feasibility::fi r
@impl impl<'a> Feasibility<'a>
    requires wf(*$1), sorbe(*$1)
    ensures fi_ok(*self.lo, *self.hi, *$1, r)
    decreases $1
@attrs #[verifier::loop_isolation(false)]
@start
    proof { if *$1 is Star || *$1 is Plus || *$1 is Repeat { lemma_rep_feas(*self.lo, *self.hi, *$1); } if *$1 is Symbol { lemma_sym_feas(*self.lo, *self.hi, *$1); } if *$1 is Fail { lemma_fail_feas(*self.lo, *self.hi, *$1); } }
@leaf
    proof { assert(fi_ok(*self.lo, *self.hi, *$1, vx_leaf)); }
@loop 0
    invariant *$1 is And, $c@ == $1->And_values@, fi_ok(*self.lo, *self.hi, *$1, $acc)
@loopend 0
    proof { if !$acc { lemma_and_feas(*self.lo, *self.hi, *$1, $i - 1); } }
@loop 1
    invariant *$1 is Or, $c@ == $1->Or_values@, fi_ok(*self.lo, *self.hi, *$1, $acc)
@loopend 1
    proof { if !$acc { lemma_or_fi(*self.lo, *self.hi, *$1, $i - 1); } }
@endfn
@fn Feasibility::fx r
@impl impl<'a> Feasibility<'a>
    requires wf(*$1), sorbe(*$1)
    ensures fx_ok(*self.lo, *self.hi, *$1, r)
    decreases $1
@attrs #[verifier::loop_isolation(false)]
@start
    proof { if *$1 is Star || *$1 is Plus || *$1 is Repeat { lemma_rep_feas(*self.lo, *self.hi, *$1); } if *$1 is Symbol { lemma_sym_feas(*self.lo, *self.hi, *$1); } if *$1 is Fail { lemma_fail_feas(*self.lo, *self.hi, *$1); } }
@leaf
    proof { assert(fx_ok(*self.lo, *self.hi, *$1, vx_leaf)); }
@loop 0
    invariant *$1 is And, $c@ == $1->And_values@, fx_ok(*self.lo, *self.hi, *$1, $acc)
@loopend 0
    proof { if !$acc { lemma_and_feas(*self.lo, *self.hi, *$1, $i - 1); } }
@loop 1
    invariant *$1 is Or, $c@ == $1->Or_values@, !$acc ==> forall|j: int| 0 <= j < $i ==> fx_ok(*self.lo, *self.hi, #[trigger] $c@[j], false) || !or_branch(*self.lo, $c@, j)
@loop 2
    invariant $c@ == $1->Or_values@, i == $i@1 - 1, $acc <==> forall|j: int| 0 <= j < $i && j != $i@1 - 1 ==> zero_s(*self.lo, #[trigger] $c@[j])
@loopafter 2
    proof { assert($acc <==> or_branch(*self.lo, $c@, $i@1 - 1)); }
@loopafter 1
    proof { if !$acc { lemma_or_fx(*self.lo, *self.hi, *$1); } }
@endfn
@fn Rbe::feasible r
    requires wf(*self), sorbe(*self)
    ensures !r ==> forall|c: MS| !(#[trigger] lang(*self, c) && within(*$1, *$2, *self, c))
@leaf
    proof { assert forall|c: MS| !vx_leaf implies !(#[trigger] lang(*self, c) && within(*$1, *$2, *self, c)) by { assert(!wit(*$1, *$2, *self, c)); } }
@endfn
@file rbe/src/rbe_struct.rs
@type struct RbeStruct
@fn RbeStruct::rbe r
    ensures *r == self.rbe
@endfn
@file rbe/src/feasibility.rs
@fn RbeStruct::feasible r
    requires wf(self.rbe), sorbe(self.rbe)
    ensures !r ==> forall|c: MS| !(#[trigger] lang(self.rbe, c) && within(*$1, *$2, self.rbe, c))
@endfn
