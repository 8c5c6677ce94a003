@subst-type T Rbe
@subst-type DerivN DerivN<F>
@file rbe/src/deriv_n.rs
@type struct DerivN
/// `v` is `s` with the element at `p` replaced by what `f` returned for it
pub open spec fn dn_some<F: Fn(&Rbe) -> Option<Rbe>>(f: F, s: Seq<Rbe>, p: int, v: Seq<Rbe>) -> bool {
    call_ensures(f, (&s[p],), Some(v[p])) && v =~= s.update(p, v[p])
}
@fn deriv_n r
    ensures r.source == $1, r.pos == 0, r.deriv == $2,
@generics <F: Fn(&Rbe) -> Option<Rbe>>
@endfn
@fn DerivN::next r
    requires forall|j: int| 0 <= j < old(self).source@.len() ==> call_requires(old(self).deriv, (&#[trigger] old(self).source@[j],)), old(self).pos <= old(self).source@.len(),
    ensures
        final(self).source == old(self).source, final(self).deriv == old(self).deriv,
        old(self).pos <= final(self).pos <= old(self).source@.len(),
        match r {
            None => final(self).pos == old(self).source@.len() && forall|j: int| old(self).pos <= j < old(self).source@.len() ==> call_ensures(old(self).deriv, (&#[trigger] old(self).source@[j],), None::<Rbe>),
            Some(v) => final(self).pos > old(self).pos
                && (forall|j: int| old(self).pos <= j < final(self).pos - 1 ==> call_ensures(old(self).deriv, (&#[trigger] old(self).source@[j],), None::<Rbe>))
                && dn_some(old(self).deriv, old(self).source@, final(self).pos - 1, v@),
        }
    decreases old(self).source@.len() - old(self).pos
@impl impl<F: Fn(&Rbe) -> Option<Rbe>> DerivN<F>
@ret Option<Vec<Rbe>>
@loop 0
    invariant
        $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> $acc@[j] == $c@[j],
@endfn

/// what the closure of deriv_and returns for one member of the conjunction
pub open spec fn member(v: Rbe, r: Option<Rbe>, x: Key, skip: bool) -> bool {
    match r { None => forall|m: MS| !(#[trigger] lang(v, adj(m, x, skip))), Some(d) => dv(v, d, x, skip) && wf(d) && sub_syms(d, v) }
}
/// `e` is the conjunction with member `j` replaced by its derivative
pub open spec fn and_var(s: Seq<Rbe>, e: Rbe, j: int, x: Key, skip: bool) -> bool {
    &&& 0 <= j < s.len() && e is And && e->And_values@ =~= s.update(j, e->And_values@[j])
    &&& dv(s[j], e->And_values@[j], x, skip) && wf(e->And_values@[j]) && sub_syms(e->And_values@[j], s[j])
}
/// every symbol of the expression is controlled
pub open spec fn ctl(e: Rbe, c: ISet<Key>) -> bool { forall|k: Key| #[trigger] syms(e, k) ==> c.contains(k) }
pub proof fn lemma_ctl(e: Rbe, c: ISet<Key>)
    requires ctl(e, c)
    ensures
        e matches Rbe::And { values } ==> forall|i: int| 0 <= i < values@.len() ==> ctl(#[trigger] values@[i], c),
        e matches Rbe::Or { values } ==> forall|i: int| 0 <= i < values@.len() ==> ctl(#[trigger] values@[i], c),
        e matches Rbe::Star { value } ==> ctl(*value, c),
        e matches Rbe::Plus { value } ==> ctl(*value, c),
        e matches Rbe::Repeat { value, card } ==> ctl(*value, c),
{
    match e {
        Rbe::And { values } => { assert forall|i: int| 0 <= i < values@.len() implies ctl(#[trigger] values@[i], c) by { assert forall|k: Key| #[trigger] syms(values@[i], k) implies c.contains(k) by { assert(syms(e, k)); } } }
        Rbe::Or { values } => { assert forall|i: int| 0 <= i < values@.len() implies ctl(#[trigger] values@[i], c) by { assert forall|k: Key| #[trigger] syms(values@[i], k) implies c.contains(k) by { assert(syms(e, k)); } } }
        Rbe::Star { value } => { assert forall|k: Key| #[trigger] syms(*value, k) implies c.contains(k) by { assert(syms(e, k)); } }
        Rbe::Plus { value } => { assert forall|k: Key| #[trigger] syms(*value, k) implies c.contains(k) by { assert(syms(e, k)); } }
        Rbe::Repeat { value, card } => { assert forall|k: Key| #[trigger] syms(*value, k) implies c.contains(k) by { assert(syms(e, k)); } }
        _ => {}
    }
}
/// result of deriv_and: the disjunction of the variants
pub open spec fn and_res(ors: Seq<Rbe>, r: Rbe) -> bool {
    if ors.len() == 0 { r is Fail } else if ors.len() == 1 { r == ors[0] } else { r is Or && r->Or_values@ =~= ors }
}
pub proof fn lemma_and_res(values: Vec<Rbe>, ors: Seq<Rbe>, r: Rbe, x: Key, skip: bool)
    requires
        values@.len() > 0, and_res(ors, r),
        forall|i: int| 0 <= i < values@.len() ==> wf(#[trigger] values@[i]),
        forall|k: int| #![trigger ors[k]] 0 <= k < ors.len() ==> has_var(values@, ors[k], x, skip),
        forall|j: int| #![trigger values@[j]] 0 <= j < values@.len() ==> covered(values@, ors, j, x, skip) || member(values@[j], None, x, skip),
    ensures dv(Rbe::And { values }, r, x, skip), wf(r), sub_syms(r, Rbe::And { values })
{
    let o = Rbe::And { values };
    assert forall|k: int| 0 <= k < ors.len() implies wf(#[trigger] ors[k]) && sub_syms(ors[k], o) by {
        assert(has_var(values@, ors[k], x, skip));
        let j = choose|j: int| #[trigger] and_var(values@, ors[k], j, x, skip);
        lemma_and_var_props(values, ors[k], j, x, skip);
    }
    assert forall|m: MS| #[trigger] lang(r, m) <==> lang(o, adj(m, x, skip)) by {
        if lang(r, m) {
            let k = if ors.len() == 1 { 0 } else { lemma_or_of(r, m); choose|k: int| 0 <= k < r->Or_values@.len() && lang(#[trigger] r->Or_values@[k], m) };
            assert(lang(ors[k], m));
            assert(has_var(values@, ors[k], x, skip));
            let j = choose|j: int| #[trigger] and_var(values@, ors[k], j, x, skip);
            lemma_and_var(values, ors[k], j, x, skip, m);
        }
        if lang(o, adj(m, x, skip)) {
            lemma_and_cover(values, ors, x, skip, m);
            let k = choose|k: int| 0 <= k < ors.len() && lang(#[trigger] ors[k], m);
            if ors.len() > 1 { assert(lang(r->Or_values@[k], m)); lemma_or_of(r, m); }
        }
    }
    if ors.len() > 1 {
        assert forall|i: int| 0 <= i < r->Or_values@.len() implies wf(#[trigger] r->Or_values@[i]) by { assert(wf(ors[i])); }
        assert forall|k: Key| #[trigger] syms(r, k) implies syms(o, k) by { lemma_syms_of(r, k); let i = choose|i: int| 0 <= i < r->Or_values@.len() && syms(#[trigger] r->Or_values@[i], k); assert(sub_syms(ors[i], o)); }
    }
}
pub open spec fn covered(s: Seq<Rbe>, ors: Seq<Rbe>, j: int, x: Key, skip: bool) -> bool { exists|k: int| 0 <= k < ors.len() && and_var(s, #[trigger] ors[k], j, x, skip) }
pub open spec fn has_var(s: Seq<Rbe>, e: Rbe, x: Key, skip: bool) -> bool { exists|j: int| #[trigger] and_var(s, e, j, x, skip) }
pub proof fn lemma_and_at_member(v: Vec<Rbe>, i: nat, j: nat, x: Key, m: MS) -> (a: MS)
    requires and_at(v, i, j, x, m), i <= j
    ensures j < v@.len(), lang(v@[j as int], a.insert(x))
    decreases v@.len() - i
{
    if i == j {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(v@[i as int], a.insert(x)) && lang_and(v, i + 1, b);
        a
    } else {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(v@[i as int], a) && and_at(v, i + 1, j, x, b);
        lemma_and_at_member(v, i + 1, j, x, b)
    }
}
pub proof fn lemma_and_var(values: Vec<Rbe>, e: Rbe, j: int, x: Key, skip: bool, m: MS)
    requires and_var(values@, e, j, x, skip), lang(e, m)
    ensures lang(Rbe::And { values }, adj(m, x, skip))
{
    let w = e->And_values;
    if skip { lemma_and_ext(w, values, 0, m); }
    else { lemma_and_upd(values, w, 0, j as nat, w@[j], x, m); lemma_and_at_bwd(values, 0, j as nat, x, m); }
}
pub proof fn lemma_and_cover(values: Vec<Rbe>, ors: Seq<Rbe>, x: Key, skip: bool, m: MS)
    requires
        values@.len() > 0, lang(Rbe::And { values }, adj(m, x, skip)),
        forall|j: int| #![trigger values@[j]] 0 <= j < values@.len() ==> covered(values@, ors, j, x, skip) || member(values@[j], None, x, skip),
    ensures exists|k: int| 0 <= k < ors.len() && lang(#[trigger] ors[k], m)
{
    if skip {
        assert(lang_and(values, 0, m));
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(values@[0], a) && lang_and(values, 1, b);
        assert(lang(values@[0], adj(a, x, skip)));
        assert(!member(values@[0], None, x, skip));
        let k = choose|k: int| 0 <= k < ors.len() && and_var(values@, #[trigger] ors[k], 0, x, skip);
        lemma_and_ext(values, ors[k]->And_values, 0, m);
        assert(lang(ors[k], m));
    } else {
        let j = lemma_and_at_fwd(values, 0, x, m);
        let a = lemma_and_at_member(values, 0, j, x, m);
        assert(lang(values@[j as int], adj(a, x, skip)));
        assert(!member(values@[j as int], None, x, skip));
        let k = choose|k: int| 0 <= k < ors.len() && and_var(values@, #[trigger] ors[k], j as int, x, skip);
        lemma_and_upd(values, ors[k]->And_values, 0, j, ors[k]->And_values@[j as int], x, m);
        assert(lang(ors[k], m));
    }
}
pub proof fn lemma_or_of(e: Rbe, m: MS)
    requires e is Or
    ensures lang(e, m) <==> exists|k: int| 0 <= k < e->Or_values@.len() && lang(#[trigger] e->Or_values@[k], m)
{}
pub proof fn lemma_syms_of(e: Rbe, k: Key)
    ensures
        e is Or ==> (syms(e, k) <==> exists|i: int| 0 <= i < e->Or_values@.len() && syms(#[trigger] e->Or_values@[i], k)),
        e is And ==> (syms(e, k) <==> exists|i: int| 0 <= i < e->And_values@.len() && syms(#[trigger] e->And_values@[i], k)),
{}
pub proof fn lemma_and_var_props(values: Vec<Rbe>, e: Rbe, j: int, x: Key, skip: bool)
    requires and_var(values@, e, j, x, skip), forall|i: int| 0 <= i < values@.len() ==> wf(#[trigger] values@[i])
    ensures wf(e), sub_syms(e, Rbe::And { values })
{
    let o = Rbe::And { values };
    assert forall|i: int| 0 <= i < e->And_values@.len() implies wf(#[trigger] e->And_values@[i]) by { if i != j { assert(e->And_values@[i] == values@[i]); } }
    assert forall|k: Key| #[trigger] syms(e, k) implies syms(o, k) by {
        lemma_syms_of(e, k); lemma_syms_of(o, k);
        let i = choose|i: int| 0 <= i < e->And_values@.len() && syms(#[trigger] e->And_values@[i], k);
        if i != j { assert(e->And_values@[i] == values@[i]); }
        assert(syms(o->And_values@[i], k));
    }
}
@file rbe/src/rbe.rs
@fn Rbe::deriv_and r
    requires
        forall|i: int| 0 <= i < $1@.len() ==> wf(#[trigger] $1@[i]), $1@.len() > 0, $3 == 1,
        forall|i: int| 0 <= i < $1@.len() ==> ctl(#[trigger] $1@[i], $5@),
    ensures
        dv(Rbe::And { values: *$1 }, r, *$2, $4 && !$5@.contains(*$2)), wf(r), sub_syms(r, Rbe::And { values: *$1 }),
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@start
    let ghost skip = $4 && !$5@.contains(*$2);
@closure 0
    -> (r: Option<Rbe>)
    requires wf(*value), $3 == 1, ctl(*value, $5@)
    ensures member(*value, r, *$2, skip)
@loop 0
    invariant
        $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> $acc@[j] == $c@[j],
@loop 1
    invariant
        $it.source@ =~= $1@, $it.pos <= $1@.len(),
        forall|j: int| 0 <= j < $1@.len() ==> call_requires($it.deriv, (&#[trigger] $1@[j],)),
        forall|j: int, r: Option<Rbe>| 0 <= j < $1@.len() && #[trigger] call_ensures($it.deriv, (&$1@[j],), r) ==> member($1@[j], r, *$2, skip),
        forall|k: int| #![trigger or_values@[k]] 0 <= k < or_values@.len() ==> has_var($1@, or_values@[k], *$2, skip),
        forall|j: int| #![trigger $1@[j]] 0 <= j < $it.pos ==> covered($1@, or_values@, j, *$2, skip) || member($1@[j], None, *$2, skip),
    decreases $1@.len() - $it.pos
@loopstart 1
    let ghost vx_old = or_values@;
@loopend 1
    proof {
        assert forall|j: int, k: int| 0 <= k < vx_old.len() && and_var($1@, vx_old[k], j, *$2, skip) implies #[trigger] and_var($1@, or_values@[k], j, *$2, skip) by {}
        assert forall|j: int| covered($1@, vx_old, j, *$2, skip) implies #[trigger] covered($1@, or_values@, j, *$2, skip) by {
            let k = choose|k: int| 0 <= k < vx_old.len() && and_var($1@, #[trigger] vx_old[k], j, *$2, skip); assert(and_var($1@, or_values@[k], j, *$2, skip)); }
    }
    proof { let ghost q = or_values@.len() - 1; assert(and_var($1@, or_values@[q], $it.pos - 1, *$2, skip)); }
@loopafter 1
    proof { assert forall|r: Rbe| #![trigger dv(Rbe::And { values: *$1 }, r, *$2, skip)] #![trigger wf(r)] #![trigger sub_syms(r, Rbe::And { values: *$1 })] and_res(or_values@, r) implies dv(Rbe::And { values: *$1 }, r, *$2, skip) && wf(r) && sub_syms(r, Rbe::And { values: *$1 }) by { lemma_and_res(*$1, or_values@, r, *$2, skip); } }
@endfn
/// language of the remaining repetitions after one has been consumed
pub open spec fn rep_rest(e: Rbe, card: Cardinality, rest: Rbe) -> bool {
    forall|q: MS| #[trigger] lang(rest, q) <==> exists|n: nat| #[trigger] tn(n) && lang_pow(e, n, q) && card_has(card, n as int + 1)
}
pub open spec fn rep_card(e: Rbe) -> Cardinality {
    match e { Rbe::Plus { value } => Cardinality { min: Min { value: 1 }, max: Max::Unbounded }, Rbe::Repeat { value, card } => card, _ => Cardinality { min: Min { value: 0 }, max: Max::Unbounded } }
}
pub open spec fn rep_value(e: Rbe) -> Rbe { match e { Rbe::Plus { value } => *value, Rbe::Repeat { value, card } => *value, Rbe::Star { value } => *value, _ => e } }
pub proof fn lemma_rep_rule(e: Rbe, x: Key)
    requires e is Plus || e is Star || e is Repeat, le_max(1, rep_card(e).max)
    ensures
        forall|d: Rbe, rest: Rbe, m: MS| dv(rep_value(e), d, x, false) && rep_rest(rep_value(e), rep_card(e), rest) ==> (#[trigger] lang2(d, rest, m) <==> lang(e, m.insert(x))),
        forall|d: Rbe, rest: Rbe, m: MS| dv(rep_value(e), d, x, false) && rep_value(e) is Fail ==> (#[trigger] lang2(d, rest, m) <==> lang(e, m.insert(x))),
        !(e is Repeat) ==> forall|v: Box<Rbe>, q: MS| *v == rep_value(e) ==> (#[trigger] lang(Rbe::Star { value: v }, q) <==> exists|n: nat| #[trigger] tn(n) && lang_pow(rep_value(e), n, q) && card_has(rep_card(e), n as int + 1)),
{
    assert forall|d: Rbe, rest: Rbe, m: MS| dv(rep_value(e), d, x, false) && rep_rest(rep_value(e), rep_card(e), rest) implies (#[trigger] lang2(d, rest, m) <==> lang(e, m.insert(x))) by {
        lemma_rep_deriv(rep_value(e), rep_card(e), d, rest, x, m);
    }
    assert forall|d: Rbe, rest: Rbe, m: MS| dv(rep_value(e), d, x, false) && rep_value(e) is Fail implies (#[trigger] lang2(d, rest, m) <==> lang(e, m.insert(x))) by {
        if lang2(d, rest, m) { let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(d, p) && lang(rest, q); assert(lang(rep_value(e), p.insert(x))); }
        assert(!lang2(d, rest, m));
        assert forall|n: nat| !(#[trigger] tn(n) && lang_pow(rep_value(e), n, m.insert(x))) by { lemma_insert_ne(m, x); if lang_pow(rep_value(e), n, m.insert(x)) { let r = lemma_pow_fwd(rep_value(e), n, x, m); } }
    }
}
pub proof fn lemma_plus_skip(e: Rbe, d: Rbe, s: Rbe, m: MS, x: Key)
    requires e is Plus, s is Star, rep_value(s) == rep_value(e), dv(rep_value(e), d, x, true)
    ensures lang2(d, s, m) <==> lang(e, m)
{
    let v = rep_value(e);
    if lang2(d, s, m) {
        let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(d, p) && lang(s, q);
        let n = choose|n: nat| #[trigger] tn(n) && lang_pow(v, n, q);
        assert(tn(n + 1)); assert(lang(v, p)); assert(lang_pow(v, n + 1, m));
    }
    if lang(e, m) {
        let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && lang_pow(v, n, m);
        let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(v, p) && lang_pow(v, (n - 1) as nat, q);
        assert(tn((n - 1) as nat)); assert(lang(s, q)); assert(lang(d, p));
    }
}
pub proof fn lemma_zero_rule(e: Rbe, x: Key, m: MS)
    requires e matches Rbe::Repeat { value, card } && card.max == Max::IntMax(0) || e is Empty || e is Fail
    ensures !lang(e, m.insert(x))
{
    lemma_insert_ne(m, x);
    if e is Repeat && lang(e, m.insert(x)) {
        let value = rep_value(e); let card = rep_card(e);
        let n = choose|n: nat| card_has(card, n as int) && #[trigger] tn(n) && lang_pow(value, n, m.insert(x));
        assert(n == 0);
    }
}
pub proof fn lemma_sym_rule(v: Key, card: Cardinality, x: Key, m: MS)
    ensures lang(Rbe::Symbol { value: v, card }, m.insert(x)) <==> v == x && (forall|k: Key| k != v ==> #[trigger] m.count(k) == 0) && card_has(card, m.count(v) as int + 1)
{
    broadcast use group_multiset_axioms;
    let e = Rbe::Symbol { value: v, card };
    if lang(e, m.insert(x)) {
        if v != x { assert(m.insert(x).count(x) == 0); }
        assert forall|k: Key| k != v implies #[trigger] m.count(k) == 0 by { assert(m.insert(x).count(k) == 0); }
    }
}
pub open spec fn less1(c: Cardinality, d: Cardinality) -> bool { forall|k: int| k >= 0 ==> (#[trigger] card_has(d, k) <==> card_has(c, k + 1)) }
pub proof fn lemma_or_rule(e: Rbe, ds: Seq<Rbe>, r: Rbe, x: Key, skip: bool)
    requires
        e is Or, ds.len() == e->Or_values@.len(),
        forall|i: int| 0 <= i < ds.len() ==> dv(e->Or_values@[i], #[trigger] ds[i], x, skip) && wf(ds[i]) && sub_syms(ds[i], e->Or_values@[i]),
        or_res(ds, r),
    ensures dv(e, r, x, skip), sub_syms(r, e)
{
    assert forall|m: MS| #[trigger] lang(r, m) <==> lang(e, adj(m, x, skip)) by {
        lemma_or_of(e, adj(m, x, skip));
        if lang(r, m) { let i = choose|i: int| 0 <= i < ds.len() && lang(#[trigger] ds[i], m); assert(lang(e->Or_values@[i], adj(m, x, skip))); }
        if lang(e, adj(m, x, skip)) { let i = choose|i: int| 0 <= i < e->Or_values@.len() && lang(#[trigger] e->Or_values@[i], adj(m, x, skip)); assert(lang(ds[i], m)); }
    }
    assert forall|k: Key| #[trigger] syms(r, k) implies syms(e, k) by { lemma_syms_of(e, k); let i = choose|i: int| 0 <= i < ds.len() && syms(#[trigger] ds[i], k); assert(syms(e->Or_values@[i], k)); }
}
@fn Rbe::deriv r
    requires wf(*self), $2 == 1, ctl(*self, $4@)
    ensures dv(*self, r, *$1, $3 && !$4@.contains(*$1)), wf(r), sub_syms(r, *self)
@attrs #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@start
    let ghost skip = $3 && !$4@.contains(*$1);
    proof {
        lemma_ctl(*self, $4@);
        if (*self is Plus || *self is Star || *self is Repeat) && le_max(1, rep_card(*self).max) { lemma_rep_rule(*self, *$1); }
        assert forall|m: MS| (*self matches Rbe::Repeat { value, card } && card.max == Max::IntMax(0)) || *self is Empty || *self is Fail implies !(#[trigger] lang(*self, m.insert(*$1))) by { lemma_zero_rule(*self, *$1, m); }
        if *self is Plus { assert forall|d: Rbe, s: Rbe, m: MS| dv(rep_value(*self), d, *$1, true) && s is Star && rep_value(s) == rep_value(*self) implies (#[trigger] lang2(d, s, m) <==> lang(*self, m)) by { lemma_plus_skip(*self, d, s, m, *$1); } }
        if *self is Symbol {
            assert(self->Symbol_value == *$1 ==> syms(*self, *$1));
            assert forall|m: MS| self->Symbol_value != *$1 || !le_max(1, self->Symbol_card.max) implies !(#[trigger] lang(*self, m.insert(*$1))) by { lemma_sym_rule(self->Symbol_value, self->Symbol_card, *$1, m); }
            assert forall|card: Cardinality, m: MS| self->Symbol_value == *$1 && less1(self->Symbol_card, card) implies (#[trigger] lang(Rbe::Symbol { value: *$1, card }, m) <==> lang(*self, m.insert(*$1))) by { lemma_sym_rule(self->Symbol_value, self->Symbol_card, *$1, m); }
        }
    }
@loop 0
    invariant
        $acc@.len() == $i, *self is Or, *$c == self->Or_values,
        forall|j: int| 0 <= j < $i ==> dv($c@[j], #[trigger] $acc@[j], *$1, skip) && wf($acc@[j]) && sub_syms($acc@[j], $c@[j]),
@loopafter 0
    proof {
        let ghost ds = $acc@;
        assert forall|r: Rbe| #[trigger] or_res(ds, r) implies dv(*self, r, *$1, skip) && sub_syms(r, *self) by { lemma_or_rule(*self, ds, r, *$1, skip); }
    }
@endfn
pub open spec fn syms_set(e: Rbe) -> ISet<Key> { ISet::new(|k: Key| syms(e, k)) }
pub open spec fn add_syms(a: ISet<Key>, b: ISet<Key>, e: Rbe) -> bool { forall|k: Key| #[trigger] b.contains(k) <==> a.contains(k) || syms(e, k) }
pub open spec fn some_syms(v: Seq<Rbe>, n: int, k: Key) -> bool { exists|j: int| 0 <= j < n && syms(#[trigger] v[j], k) }
pub proof fn lemma_some_syms(v: Seq<Rbe>, n: int, k: Key)
    requires 0 <= n < v.len()
    ensures some_syms(v, n + 1, k) <==> some_syms(v, n, k) || syms(v[n], k), !some_syms(v, 0, k)
{
    if some_syms(v, n + 1, k) { let j = choose|j: int| 0 <= j < n + 1 && syms(#[trigger] v[j], k); if j < n { assert(syms(v[j], k)); } }
    if some_syms(v, n, k) { let j = choose|j: int| 0 <= j < n && syms(#[trigger] v[j], k); assert(syms(v[j], k)); }
}
@fn Rbe::symbols_aux r
    ensures add_syms(old($1)@, final($1)@, *self)
    decreases self
@attrs #[verifier::loop_isolation(false)]
@start
    let ghost s0 = $1@;
@loop 0
    invariant forall|k: Key| #[trigger] $1@.contains(k) <==> s0.contains(k) || some_syms($c@, $i as int, k)
@loopend 0
    proof { assert forall|k: Key| #[trigger] $1@.contains(k) <==> s0.contains(k) || some_syms($c@, $i as int, k) by { lemma_some_syms($c@, $i - 1, k); } }
@loop 1
    invariant forall|k: Key| #[trigger] $1@.contains(k) <==> s0.contains(k) || some_syms($c@, $i as int, k)
@loopend 1
    proof { assert forall|k: Key| #[trigger] $1@.contains(k) <==> s0.contains(k) || some_syms($c@, $i as int, k) by { lemma_some_syms($c@, $i - 1, k); } }
@endfn
@fn Rbe::symbols r
    ensures r@ == syms_set(*self)
@endfn
/// the bag that counts: extra symbols of an open expression are ignored
pub open spec fn restrict(b: MS, open: bool, c: ISet<Key>) -> MS { if open { b.filter(|k: Key| c.contains(k)) } else { b } }
pub proof fn lemma_restrict(b: MS, open: bool, c: ISet<Key>)
    ensures forall|k: Key| #[trigger] restrict(b, open, c).count(k) == (if open && !c.contains(k) { 0 } else { b.count(k) })
{ broadcast use group_multiset_axioms; }
/// the expression does not match the whole bag, whatever is added to it
pub open spec fn dead(e: Rbe, b: MS) -> bool { forall|m: MS| !(#[trigger] lang(e, m.add(b))) }
/// `d` is the derivative of `e` by the bag `p`
pub open spec fn dvb(e: Rbe, d: Rbe, p: MS) -> bool { forall|m: MS| #[trigger] lang(d, m) <==> lang(e, m.add(p)) }
pub proof fn lemma_dead(e: Rbe, d: Rbe, p: MS, b: MS)
    requires d is Fail, dvb(e, d, p), forall|k: Key| #[trigger] p.count(k) <= b.count(k)
    ensures dead(e, b)
{
    broadcast use group_multiset_axioms;
    assert forall|m: MS| !(#[trigger] lang(e, m.add(b))) by {
        let q = m.add(b.sub(p));
        assert(q.add(p) =~= m.add(b));
        assert(!lang(d, q));
    }
}
pub proof fn lemma_dvb_step(e: Rbe, c: Rbe, d: Rbe, p: MS, x: Key, skip: bool)
    requires dvb(e, c, p), dv(c, d, x, skip)
    ensures dvb(e, d, adj(p, x, skip))
{
    broadcast use group_multiset_axioms;
    assert forall|m: MS| #[trigger] lang(d, m) <==> lang(e, m.add(adj(p, x, skip))) by {
        assert(m.add(adj(p, x, skip)) =~= adj(m, x, skip).add(p));
    }
}
/// the part of the bag consumed after `i` entries and `n` copies of entry `i`
pub open spec fn prefix(p: MS, es: Seq<(Key, usize)>, b: MS, i: int, n: int, open: bool, c: ISet<Key>) -> bool {
    &&& forall|j: int| 0 <= j < i ==> #[trigger] p.count(es[j].0) == restrict(b, open, c).count(es[j].0)
    &&& forall|j: int| i <= j < es.len() ==> #[trigger] p.count(es[j].0) == if j == i && !(open && !c.contains(es[j].0)) { n } else { 0 }
    &&& forall|k: Key| b.count(k) == 0 ==> #[trigger] p.count(k) == 0
}
pub open spec fn entries_of(es: Seq<(Key, usize)>, b: MS) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> #[trigger] b.count(es[i].0) == es[i].1 && es[i].1 > 0
    &&& forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < es.len() && i != j ==> es[i].0 != es[j].0
    &&& forall|k: Key| #[trigger] b.count(k) > 0 ==> exists|i: int| 0 <= i < es.len() && es[i].0 == k
}
pub proof fn lemma_prefix_le(p: MS, es: Seq<(Key, usize)>, b: MS, i: int, n: int, open: bool, c: ISet<Key>)
    requires prefix(p, es, b, i, n, open, c), entries_of(es, b), 0 <= i <= es.len(), i < es.len() ==> n <= es[i].1
    ensures forall|k: Key| #[trigger] p.count(k) <= restrict(b, open, c).count(k), i == es.len() ==> p =~= restrict(b, open, c)
{
    lemma_restrict(b, open, c);
    assert forall|k: Key| #[trigger] p.count(k) <= restrict(b, open, c).count(k) && (i == es.len() ==> p.count(k) == restrict(b, open, c).count(k)) by {
        if b.count(k) > 0 { let j = choose|j: int| 0 <= j < es.len() && es[j].0 == k; assert(p.count(es[j].0) >= 0); assert(b.count(es[j].0) == es[j].1); }
    }
}
pub proof fn lemma_prefix_step(p: MS, es: Seq<(Key, usize)>, b: MS, i: int, n: int, open: bool, c: ISet<Key>)
    requires prefix(p, es, b, i, n, open, c), entries_of(es, b), 0 <= i < es.len(), 0 <= n <= es[i].1
    ensures
        n < es[i].1 ==> prefix(adj(p, es[i].0, open && !c.contains(es[i].0)), es, b, i, n + 1, open, c),
        n == es[i].1 ==> prefix(p, es, b, i + 1, 0, open, c),
{
    broadcast use group_multiset_axioms;
    lemma_restrict(b, open, c);
    let x = es[i].0; let skip = open && !c.contains(x); let q = adj(p, x, skip);
    assert(b.count(es[i].0) == es[i].1);
    assert(p.count(es[i].0) == if !skip { n } else { 0 });
    assert forall|j: int| 0 <= j < es.len() && j != i implies #[trigger] q.count(es[j].0) == p.count(es[j].0) by {}
    assert forall|k: Key| b.count(k) == 0 implies #[trigger] q.count(k) == 0 by { assert(p.count(k) == 0); }
    assert(q.count(x) == if !skip { n + 1 } else { 0 });
    if n < es[i].1 {
        assert forall|j: int| 0 <= j < i implies #[trigger] q.count(es[j].0) == restrict(b, open, c).count(es[j].0) by { assert(p.count(es[j].0) == restrict(b, open, c).count(es[j].0)); }
        assert forall|j: int| i <= j < es.len() implies #[trigger] q.count(es[j].0) == if j == i && !(open && !c.contains(es[j].0)) { n + 1 } else { 0 } by { assert(p.count(es[j].0) == if j == i && !(open && !c.contains(es[j].0)) { n } else { 0 }); }
    }
}
pub open spec fn void(d: Rbe) -> bool { forall|m: MS| !(#[trigger] lang(d, m)) }
pub open spec fn live(e: Rbe, d: Rbe, p: MS, es: Seq<(Key, usize)>, b: MS, i: int, n: int, open: bool, c: ISet<Key>) -> bool { dvb(e, d, p) && prefix(p, es, b, i, n, open, c) }
pub open spec fn progress(e: Rbe, d: Rbe, es: Seq<(Key, usize)>, b: MS, i: int, n: int, open: bool, c: ISet<Key>) -> bool {
    (void(d) && dead(e, restrict(b, open, c))) || exists|p: MS| #[trigger] live(e, d, p, es, b, i, n, open, c)
}
pub proof fn lemma_progress_init(e: Rbe, es: Seq<(Key, usize)>, b: MS, open: bool, c: ISet<Key>)
    requires entries_of(es, b)
    ensures progress(e, e, es, b, 0, 0, open, c)
{
    broadcast use group_multiset_axioms;
    let p = Multiset::<Key>::empty();
    assert forall|m: MS| #[trigger] lang(e, m) <==> lang(e, m.add(p)) by { assert(m.add(p) =~= m); }
    assert(live(e, e, p, es, b, 0, 0, open, c));
}
pub proof fn lemma_progress_step(e: Rbe, d: Rbe, d2: Rbe, es: Seq<(Key, usize)>, b: MS, i: int, n: int, open: bool, c: ISet<Key>)
    requires progress(e, d, es, b, i, n, open, c), entries_of(es, b), 0 <= i < es.len(), 0 <= n < es[i].1, dv(d, d2, es[i].0, open && !c.contains(es[i].0))
    ensures
        forall|f: Rbe| f is Fail && d2 is Fail ==> #[trigger] progress(e, f, es, b, i, n, open, c),
        forall|f: Rbe| f is Fail && d2 is Fail ==> #[trigger] progress(e, f, es, b, i + 1, 0, open, c),
        d2 is Fail ==> dead(e, restrict(b, open, c)),
        progress(e, d2, es, b, i, n + 1, open, c),
{
    let x = es[i].0; let skip = open && !c.contains(x);
    if void(d) && dead(e, restrict(b, open, c)) { assert(void(d2)); } else
    if exists|p: MS| #[trigger] live(e, d, p, es, b, i, n, open, c) {
        let p = choose|p: MS| #[trigger] live(e, d, p, es, b, i, n, open, c);
        lemma_dvb_step(e, d, d2, p, x, skip);
        lemma_prefix_step(p, es, b, i, n, open, c);
        let q = adj(p, x, skip);
        assert(live(e, d2, q, es, b, i, n + 1, open, c));
        lemma_prefix_le(q, es, b, i, n + 1, open, c);
        if d2 is Fail { lemma_dead(e, d2, q, restrict(b, open, c)); }
    }
}
pub proof fn lemma_progress_next(e: Rbe, d: Rbe, es: Seq<(Key, usize)>, b: MS, i: int, n: int, open: bool, c: ISet<Key>)
    requires progress(e, d, es, b, i, n, open, c), entries_of(es, b), 0 <= i < es.len(), 0 <= n <= es[i].1
    ensures n == es[i].1 ==> progress(e, d, es, b, i + 1, 0, open, c), d is Fail ==> dead(e, restrict(b, open, c))
{
    if exists|p: MS| #[trigger] live(e, d, p, es, b, i, n, open, c) {
        let p = choose|p: MS| #[trigger] live(e, d, p, es, b, i, n, open, c);
        lemma_prefix_step(p, es, b, i, n, open, c);
        if n == es[i].1 { assert(live(e, d, p, es, b, i + 1, 0, open, c)); }
        lemma_prefix_le(p, es, b, i, n, open, c);
        if d is Fail { lemma_dead(e, d, p, restrict(b, open, c)); }
    }
}
pub proof fn lemma_progress_done(e: Rbe, d: Rbe, es: Seq<(Key, usize)>, b: MS, i: int, open: bool, c: ISet<Key>)
    requires progress(e, d, es, b, i, 0, open, c), entries_of(es, b), 0 <= i <= es.len(), i == es.len() || d is Fail
    ensures dvb(e, d, restrict(b, open, c))
{
    if !(void(d) && dead(e, restrict(b, open, c))) {
        let p = choose|p: MS| #[trigger] live(e, d, p, es, b, i, 0, open, c);
        lemma_prefix_le(p, es, b, i, 0, open, c);
        if d is Fail { assert(void(d)); lemma_dead(e, d, p, restrict(b, open, c)); }
    }
}
@fn Rbe::deriv_bag r
    requires wf(*self), ctl(*self, $3@)
    ensures wf(r), dvb(*self, r, restrict($1@, $2, $3@)),
@attrs #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@loopbefore 0
    proof { lemma_progress_init(*self, $c@, $1@, $2, $3@); if $c@.len() == 0 { lemma_progress_done(*self, current, $c@, $1@, 0, $2, $3@); } }
@loop 0
    invariant
        entries_of($c@, $1@), wf(current), ctl(current, $3@), progress(*self, current, $c@, $1@, $i as int, 0, $2, $3@),
        $i == $c@.len() ==> dvb(*self, current, restrict($1@, $2, $3@)),
    ensures
        wf(current), dvb(*self, current, restrict($1@, $2, $3@)),
@loopbefore 1
    proof { assert($1@.count($c@0@[$i@0 - 1].0) == $c@0@[$i@0 - 1].1); lemma_progress_next(*self, current, $c@0@, $1@, $i@0 - 1, 0, $2, $3@); }
@afterlet deriv
    let ghost vx_cur = current;
    let ghost vx_d = deriv;
    proof {
        lemma_progress_step(*self, vx_cur, vx_d, $c@0@, $1@, $i@0 - 1, $i@1 - 1, $2, $3@);
        lemma_progress_next(*self, vx_cur, $c@0@, $1@, $i@0 - 1, $i@1 - 1, $2, $3@);
    }
@loop 1
    invariant
        wf(current), ctl(current, $3@), $i <= count, progress(*self, current, $c@0@, $1@, $i@0 - 1, $i as int, $2, $3@),
        $i == count ==> progress(*self, current, $c@0@, $1@, $i@0 as int, 0, $2, $3@),
    ensures
        wf(current), ctl(current, $3@), progress(*self, current, $c@0@, $1@, $i@0 as int, 0, $2, $3@),
@loopend 1
    proof {
        lemma_progress_next(*self, current, $c@0@, $1@, $i@0 - 1, $i as int, $2, $3@);
    }
@loopafter 1
    proof {
        if current is Fail || $i@0 == $c@0@.len() { lemma_progress_done(*self, current, $c@0@, $1@, $i@0 as int, $2, $3@); }
    }
@endfn
@fn Rbe::match_bag_deriv r
    requires wf(*self)
    ensures r is Ok <==> lang(*self, restrict($1@, $2, syms_set(*self)))
@afterlet deriv
    proof {
        let b = restrict($1@, $2, syms_set(*self));
        let z = Multiset::<Key>::empty();
        assert(z.add(b) =~= b);
        assert(lang(deriv, z) <==> lang(*self, z.add(b)));
    }
@endfn
