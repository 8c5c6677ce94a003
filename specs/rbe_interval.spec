// ---- powers of a language ----
/// no `Fail` node occurs (Fail only arises as the result of a derivative)
pub open spec fn nofail(e: Rbe) -> bool
    decreases e
{
    match e {
        Rbe::Fail { error } => false,
        Rbe::And { values } => forall|i: int| 0 <= i < values@.len() ==> nofail(#[trigger] values@[i]),
        Rbe::Or { values } => forall|i: int| 0 <= i < values@.len() ==> nofail(#[trigger] values@[i]),
        Rbe::Star { value } => nofail(*value),
        Rbe::Plus { value } => nofail(*value),
        Rbe::Repeat { value, card } => nofail(*value),
        _ => true,
    }
}
/// the occurrences of the symbols of `e` in `b`
pub open spec fn restr(b: MS, e: Rbe) -> MS { b.filter(|k: Key| syms(e, k)) }
pub proof fn lemma_restr(b: MS, e: Rbe)
    ensures forall|k: Key| #[trigger] restr(b, e).count(k) == (if syms(e, k) { b.count(k) } else { 0 })
{ broadcast use group_multiset_axioms; }
pub proof fn lemma_restr_same(b: MS, e: Rbe, v: Rbe)
    requires forall|k: Key| #[trigger] syms(e, k) <==> syms(v, k)
    ensures restr(b, e) == restr(b, v)
{ lemma_restr(b, e); lemma_restr(b, v); assert(restr(b, e) =~= restr(b, v)); }
pub proof fn lemma_pow_add(e: Rbe, i: nat, j: nat, m: MS, a: MS, b: MS)
    requires split(m, a, b), lang_pow(e, i, a), lang_pow(e, j, b)
    ensures lang_pow(e, i + j, m)
    decreases i
{
    broadcast use group_multiset_axioms;
    if i == 0 { assert(m =~= b); }
    else {
        let (c, d) = choose|c: MS, d: MS| #[trigger] split(a, c, d) && lang(e, c) && lang_pow(e, (i - 1) as nat, d);
        // m = c + (d + b)
        let r = d.add(b);
        assert(split(m, c, r)) by { assert(m =~= c.add(r)); }
        assert(split(r, d, b));
        lemma_pow_add(e, (i - 1) as nat, j, r, d, b);
    }
}
pub proof fn lemma_pow_split(e: Rbe, i: nat, j: nat, m: MS) -> (r: (MS, MS))
    requires lang_pow(e, i + j, m)
    ensures split(m, r.0, r.1), lang_pow(e, i, r.0), lang_pow(e, j, r.1)
    decreases i
{
    broadcast use group_multiset_axioms;
    if i == 0 { lemma_split_empty(m); (Multiset::empty(), m) }
    else {
        let (c, d) = choose|c: MS, d: MS| #[trigger] split(m, c, d) && lang(e, c) && lang_pow(e, (i + j - 1) as nat, d);
        let (x, y) = lemma_pow_split(e, (i - 1) as nat, j, d);
        let a = c.add(x);
        assert(split(a, c, x));
        assert(lang_pow(e, i, a));
        assert(m =~= a.add(y));
        (a, y)
    }
}
/// `k` repetitions of a group with cardinality `c` take `j` iterations of its body
pub open spec fn gcard(c: Cardinality, k: int, j: int) -> bool { k * c.min.value <= j && iv_scale_ge(k, c.max, j) }
pub proof fn lemma_group_pow(e: Rbe, k: nat, m: MS)
    requires e is Plus || e is Star || e is Repeat, le_max(rep_card(e).min.value as int, rep_card(e).max)
    ensures lang_pow(e, k, m) <==> exists|j: nat| gcard(rep_card(e), k as int, j as int) && #[trigger] tn(j) && lang_pow(rep_value(e), j, m)
    decreases k
{
    let c = rep_card(e); let v = rep_value(e); let lo = c.min.value as int;
    if k == 0 {
        assert(0 * lo == 0) by(nonlinear_arith);
        if let Max::IntMax(hi) = c.max { assert(0 * hi as int == 0) by(nonlinear_arith); }
        if lang_pow(e, k, m) { assert(tn(0)); assert(lang_pow(v, 0, m)); assert(gcard(c, 0, 0)); }
        if exists|j: nat| gcard(c, k as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, m) { let j = choose|j: nat| gcard(c, k as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, m); assert(j == 0); }
    } else {
        let k1 = (k - 1) as nat;
        assert(k * lo == k1 * lo + lo) by(nonlinear_arith) requires k == k1 + 1;
        if let Max::IntMax(hi) = c.max { assert(k * hi == k1 * hi + hi) by(nonlinear_arith) requires k == k1 + 1; }
        if lang_pow(e, k, m) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, k1, b);
            lemma_group_pow(e, k1, b);
            let i = choose|i: nat| card_has(c, i as int) && #[trigger] tn(i) && lang_pow(v, i, a);
            let j = choose|j: nat| gcard(c, k1 as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, b);
            lemma_pow_add(v, i, j, m, a, b);
            assert(tn(i + j));
            assert(gcard(c, k as int, i + j as int));
        }
        if exists|j: nat| gcard(c, k as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, m) {
            let j = choose|j: nat| gcard(c, k as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, m);
            assert(k1 * lo >= 0) by(nonlinear_arith) requires k1 >= 0, lo >= 0;
            let i: int = match c.max {
                Max::Unbounded => if k == 1 { j as int } else { lo },
                Max::IntMax(hi) => if j <= lo + k1 * hi { lo } else { j - k1 * hi },
            };
            if c.max is Unbounded && k == 1 { assert(k1 * lo == 0) by(nonlinear_arith) requires k1 == 0; }
            if let Max::IntMax(hi) = c.max { assert(k1 * hi >= k1 * lo) by(nonlinear_arith) requires k1 >= 0, hi >= lo; }
            assert(card_has(c, i) && 0 <= i <= j && gcard(c, k1 as int, j - i));
            let i1 = i as nat; let j1 = (j - i) as nat;
            let (a, b) = lemma_pow_split(v, i1, j1, m);
            assert(tn(i1) && tn(j1));
            lemma_group_pow(e, k1, b);
            assert(lang_pow(e, k1, b));
            assert(lang(e, a));
        }
    }
}
// ---- conjunctions ----
pub open spec fn and_dec(values: Vec<Rbe>, i: nat, k: nat, m: MS) -> bool
    decreases values@.len() - i
{
    if i >= values@.len() { m =~= Multiset::empty() }
    else { exists|a: MS, b: MS| #[trigger] split(m, a, b) && lang_pow(values@[i as int], k, a) && and_dec(values, i + 1, k, b) }
}
pub proof fn lemma_and_dec_zip(values: Vec<Rbe>, i: nat, k: nat, m: MS, a: MS, b: MS)
    requires split(m, a, b), lang_and(values, i, a), and_dec(values, i, k, b)
    ensures and_dec(values, i, k + 1, m)
    decreases values@.len() - i
{
    broadcast use group_multiset_axioms;
    if i < values@.len() {
        let v = values@[i as int];
        let (a1, a2) = choose|x: MS, y: MS| #[trigger] split(a, x, y) && lang(v, x) && lang_and(values, i + 1, y);
        let (b1, b2) = choose|x: MS, y: MS| #[trigger] split(b, x, y) && lang_pow(v, k, x) && and_dec(values, i + 1, k, y);
        let c1 = a1.add(b1); let c2 = a2.add(b2);
        assert(split(m, c1, c2)) by { assert(m =~= c1.add(c2)); }
        assert(split(c1, a1, b1)); assert(lang_pow(v, k + 1, c1));
        assert(split(c2, a2, b2));
        lemma_and_dec_zip(values, i + 1, k, c2, a2, b2);
    }
}
pub proof fn lemma_and_dec_unzip(values: Vec<Rbe>, i: nat, k: nat, m: MS) -> (r: (MS, MS))
    requires and_dec(values, i, k + 1, m)
    ensures split(m, r.0, r.1), lang_and(values, i, r.0), and_dec(values, i, k, r.1)
    decreases values@.len() - i
{
    broadcast use group_multiset_axioms;
    if i < values@.len() {
        let v = values@[i as int];
        let (c1, c2) = choose|x: MS, y: MS| #[trigger] split(m, x, y) && lang_pow(v, k + 1, x) && and_dec(values, i + 1, k + 1, y);
        let (a1, b1) = choose|x: MS, y: MS| #[trigger] split(c1, x, y) && lang(v, x) && lang_pow(v, k, y);
        let (a2, b2) = lemma_and_dec_unzip(values, i + 1, k, c2);
        let a = a1.add(a2); let b = b1.add(b2);
        assert(split(a, a1, a2)); assert(split(b, b1, b2));
        assert(m =~= a.add(b));
        (a, b)
    } else { lemma_split_empty(m); (m, Multiset::empty()) }
}
pub proof fn lemma_and_dec_zero(values: Vec<Rbe>, i: nat, m: MS)
    ensures and_dec(values, i, 0, m) <==> m =~= Multiset::empty()
    decreases values@.len() - i
{
    broadcast use group_multiset_axioms;
    if i < values@.len() {
        if and_dec(values, i, 0, m) {
            let (a, b) = choose|x: MS, y: MS| #[trigger] split(m, x, y) && lang_pow(values@[i as int], 0, x) && and_dec(values, i + 1, 0, y);
            lemma_and_dec_zero(values, i + 1, b);
            assert(m =~= Multiset::empty());
        }
        if m =~= Multiset::empty() {
            lemma_split_empty(m); lemma_and_dec_zero(values, i + 1, m);
            assert(split(m, m, m) && lang_pow(values@[i as int], 0, m) && and_dec(values, i + 1, 0, m));
        }
    }
}
pub proof fn lemma_and_pow(values: Vec<Rbe>, k: nat, m: MS)
    ensures lang_pow(Rbe::And { values }, k, m) <==> and_dec(values, 0, k, m)
    decreases k
{
    let e = Rbe::And { values };
    if k == 0 { lemma_and_dec_zero(values, 0, m); }
    else {
        let k1 = (k - 1) as nat;
        if lang_pow(e, k, m) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, k1, b);
            lemma_and_pow(values, k1, b);
            assert(lang_and(values, 0, a));
            lemma_and_dec_zip(values, 0, k1, m, a, b);
        }
        if and_dec(values, 0, k, m) {
            let (a, b) = lemma_and_dec_unzip(values, 0, k1, m);
            lemma_and_pow(values, k1, b);
            assert(lang(e, a));
        }
    }
}
/// symbols of the members from `i` on
pub open spec fn syms_from(s: Seq<Rbe>, i: int, k: Key) -> bool { exists|j: int| i <= j < s.len() && syms(#[trigger] s[j], k) }
pub proof fn lemma_and_dec_support(values: Vec<Rbe>, i: nat, k: nat, m: MS, x: Key)
    requires and_dec(values, i, k, m), !syms_from(values@, i as int, x)
    ensures m.count(x) == 0
    decreases values@.len() - i
{
    broadcast use group_multiset_axioms;
    if i < values@.len() {
        let (a, b) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang_pow(values@[i as int], k, p) && and_dec(values, i + 1, k, q);
        assert(!syms(values@[i as int], x));
        lemma_support_pow(values@[i as int], k, a, x);
        assert(!syms_from(values@, i as int + 1, x));
        lemma_and_dec_support(values, i + 1, k, b, x);
    }
}
pub proof fn lemma_and_dec_disjoint(values: Vec<Rbe>, i: nat, k: nat, b: MS, m: MS)
    requires disjoint(values@), forall|x: Key| #[trigger] m.count(x) == if syms_from(values@, i as int, x) { b.count(x) } else { 0 }
    ensures and_dec(values, i, k, m) <==> forall|j: int| i <= j < values@.len() ==> lang_pow(#[trigger] values@[j], k, restr(b, values@[j]))
    decreases values@.len() - i
{
    broadcast use group_multiset_axioms;
    if i < values@.len() {
        let v = values@[i as int];
        let m2 = m.sub(restr(b, v));
        lemma_restr(b, v);
        assert forall|x: Key| (#[trigger] syms_from(values@, i as int, x) <==> syms(v, x) || syms_from(values@, i as int + 1, x)) && !(syms(v, x) && syms_from(values@, i as int + 1, x)) by {
            if syms_from(values@, i as int, x) { let j = choose|j: int| i <= j < values@.len() && syms(#[trigger] values@[j], x); if j != i { assert(syms_from(values@, i as int + 1, x)); } }
            if syms_from(values@, i as int + 1, x) { let j = choose|j: int| i + 1 <= j < values@.len() && syms(#[trigger] values@[j], x); assert(syms_from(values@, i as int, x)); if syms(v, x) { assert(syms(values@[i as int], x) && syms(values@[j], x)); } }
            if syms(v, x) { assert(syms(values@[i as int], x)); assert(syms_from(values@, i as int, x)); }
        }
        assert forall|x: Key| #[trigger] m2.count(x) == if syms_from(values@, i as int + 1, x) { b.count(x) } else { 0 } by { assert(syms_from(values@, i as int, x) <==> syms(v, x) || syms_from(values@, i as int + 1, x)); }
        assert(m =~= restr(b, v).add(m2)) by {
            assert forall|x: Key| m.count(x) == restr(b, v).add(m2).count(x) by { assert(syms_from(values@, i as int, x) <==> syms(v, x) || syms_from(values@, i as int + 1, x)); }
        }
        lemma_and_dec_disjoint(values, i + 1, k, b, m2);
        if and_dec(values, i, k, m) {
            let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang_pow(v, k, p) && and_dec(values, i + 1, k, q);
            assert forall|x: Key| p.count(x) == restr(b, v).count(x) && q.count(x) == m2.count(x) by {
                if !syms(v, x) { lemma_support_pow(v, k, p, x); }
                if !syms_from(values@, i as int + 1, x) { lemma_and_dec_support(values, i + 1, k, q, x); }
                assert(m.count(x) == p.add(q).count(x));
                assert(syms_from(values@, i as int, x) <==> syms(v, x) || syms_from(values@, i as int + 1, x));
            }
            assert(p =~= restr(b, v)); assert(q =~= m2);
        }
        if forall|j: int| i <= j < values@.len() ==> lang_pow(#[trigger] values@[j], k, restr(b, values@[j])) {
            assert(lang_pow(values@[i as int], k, restr(b, v)));
            assert(split(m, restr(b, v), m2));
        }
    } else {
        assert forall|x: Key| m.count(x) == 0 by { assert(!syms_from(values@, i as int, x)); }
        assert(m =~= Multiset::empty());
    }
}
pub proof fn lemma_and_interval(values: Vec<Rbe>, k: nat, b: MS)
    requires disjoint(values@)
    ensures lang_pow(Rbe::And { values }, k, restr(b, Rbe::And { values })) <==> forall|j: int| 0 <= j < values@.len() ==> lang_pow(#[trigger] values@[j], k, restr(b, values@[j]))
{
    let e = Rbe::And { values };
    lemma_and_pow(values, k, restr(b, e));
    lemma_restr(b, e);
    assert forall|x: Key| #[trigger] restr(b, e).count(x) == if syms_from(values@, 0, x) { b.count(x) } else { 0 } by { lemma_syms_of(e, x); }
    lemma_and_dec_disjoint(values, 0, k, b, restr(b, e));
}
// ---- disjunctions ----
pub open spec fn or_dec(values: Vec<Rbe>, i: nat, k: nat, m: MS) -> bool
    decreases i
{
    if i == 0 { k == 0 && m =~= Multiset::empty() }
    else { exists|k1: nat, k2: nat, a: MS, b: MS| k1 + k2 == k && #[trigger] split(m, a, b) && #[trigger] tn2(k1, k2) && or_dec(values, (i - 1) as nat, k1, a) && lang_pow(values@[i - 1], k2, b) }
}
pub open spec fn tn2(a: nat, b: nat) -> bool { true }
pub proof fn lemma_or_dec_add(values: Vec<Rbe>, i: nat, k: nat, m: MS, j: int, a: MS, r: MS)
    requires i <= values@.len(), 0 <= j < i, lang(values@[j], a), or_dec(values, i, k, r), split(m, a, r)
    ensures or_dec(values, i, k + 1, m)
    decreases i
{
    broadcast use group_multiset_axioms;
    let i1 = (i - 1) as nat;
    let (k1, k2, p, q) = choose|k1: nat, k2: nat, p: MS, q: MS| k1 + k2 == k && #[trigger] split(r, p, q) && #[trigger] tn2(k1, k2) && or_dec(values, i1, k1, p) && lang_pow(values@[i - 1], k2, q);
    if j == i - 1 {
        let q2 = a.add(q);
        assert(split(q2, a, q));
        assert(lang_pow(values@[i - 1], k2 + 1, q2));
        assert(split(m, p, q2)) by { assert(m =~= p.add(q2)); }
        assert(tn2(k1, k2 + 1));
    } else {
        let p2 = a.add(p);
        assert(split(p2, a, p));
        lemma_or_dec_add(values, i1, k1, p2, j, a, p);
        assert(split(m, p2, q)) by { assert(m =~= p2.add(q)); }
        assert(tn2(k1 + 1, k2));
    }
}
pub proof fn lemma_or_dec_zero(values: Vec<Rbe>, i: nat, m: MS)
    requires i <= values@.len(), m =~= Multiset::<Key>::empty()
    ensures or_dec(values, i, 0, m)
    decreases i
{
    if i > 0 { lemma_split_empty(m); lemma_or_dec_zero(values, (i - 1) as nat, m); assert(split(m, m, m) && tn2(0, 0) && lang_pow(values@[i - 1], 0, m)); }
}
pub proof fn lemma_pow_sub(v: Rbe, e: Rbe, k: nat, m: MS)
    requires lang_pow(v, k, m), forall|m: MS| #[trigger] lang(v, m) ==> lang(e, m)
    ensures lang_pow(e, k, m)
    decreases k
{
    if k > 0 {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(v, a) && lang_pow(v, (k - 1) as nat, b);
        lemma_pow_sub(v, e, (k - 1) as nat, b);
        assert(lang(e, a));
    }
}
pub proof fn lemma_or_dec_sound(values: Vec<Rbe>, i: nat, k: nat, m: MS)
    requires or_dec(values, i, k, m), i <= values@.len()
    ensures lang_pow(Rbe::Or { values }, k, m)
    decreases i
{
    let e = Rbe::Or { values };
    if i > 0 {
        let (k1, k2, p, q) = choose|k1: nat, k2: nat, p: MS, q: MS| k1 + k2 == k && #[trigger] split(m, p, q) && #[trigger] tn2(k1, k2) && or_dec(values, (i - 1) as nat, k1, p) && lang_pow(values@[i - 1], k2, q);
        lemma_or_dec_sound(values, (i - 1) as nat, k1, p);
        assert forall|m: MS| #[trigger] lang(values@[i - 1], m) implies lang(e, m) by { lemma_or_of(e, m); assert(lang(e->Or_values@[i - 1], m)); }
        lemma_pow_sub(values@[i - 1], e, k2, q);
        lemma_pow_add(e, k1, k2, m, p, q);
    }
}
pub proof fn lemma_or_pow(values: Vec<Rbe>, k: nat, m: MS)
    ensures lang_pow(Rbe::Or { values }, k, m) <==> or_dec(values, values@.len(), k, m)
    decreases k
{
    let e = Rbe::Or { values };
    if or_dec(values, values@.len(), k, m) { lemma_or_dec_sound(values, values@.len(), k, m); }
    if lang_pow(e, k, m) {
        if k == 0 { lemma_or_dec_zero(values, values@.len(), m); }
        else {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, (k - 1) as nat, b);
            lemma_or_pow(values, (k - 1) as nat, b);
            lemma_or_of(e, a);
            let j = choose|j: int| 0 <= j < e->Or_values@.len() && lang(#[trigger] e->Or_values@[j], a);
            lemma_or_dec_add(values, values@.len(), (k - 1) as nat, m, j, a, b);
        }
    }
}
pub proof fn lemma_or_dec_support(values: Vec<Rbe>, i: nat, k: nat, m: MS, x: Key)
    requires or_dec(values, i, k, m), !some_syms(values@, i as int, x), i <= values@.len()
    ensures m.count(x) == 0
    decreases i
{
    broadcast use group_multiset_axioms;
    if i > 0 {
        let (k1, k2, p, q) = choose|k1: nat, k2: nat, p: MS, q: MS| k1 + k2 == k && #[trigger] split(m, p, q) && #[trigger] tn2(k1, k2) && or_dec(values, (i - 1) as nat, k1, p) && lang_pow(values@[i - 1], k2, q);
        lemma_some_syms(values@, i - 1, x);
        lemma_or_dec_support(values, (i - 1) as nat, k1, p, x);
        lemma_support_pow(values@[i - 1], k2, q, x);
    }
}
/// the occurrences of the symbols of the first `i` members
pub open spec fn restr_some(b: MS, s: Seq<Rbe>, i: int) -> MS { b.filter(|k: Key| some_syms(s, i, k)) }
pub proof fn lemma_restr_some(b: MS, s: Seq<Rbe>, i: int)
    ensures forall|k: Key| #[trigger] restr_some(b, s, i).count(k) == (if some_syms(s, i, k) { b.count(k) } else { 0 })
{ broadcast use group_multiset_axioms; }
pub proof fn lemma_restr_next(b: MS, s: Seq<Rbe>, i: int)
    requires disjoint(s), 0 <= i < s.len()
    ensures
        restr_some(b, s, i + 1) == restr_some(b, s, i).add(restr(b, s[i])), restr_some(b, s, 0) == Multiset::<Key>::empty(),
        forall|x: Key| !(#[trigger] some_syms(s, i, x) && syms(s[i], x)),
{
    broadcast use group_multiset_axioms;
    lemma_restr_some(b, s, i + 1); lemma_restr_some(b, s, i); lemma_restr_some(b, s, 0); lemma_restr(b, s[i]);
    assert forall|x: Key| !(#[trigger] some_syms(s, i, x) && syms(s[i], x)) by {
        if some_syms(s, i, x) { let j = choose|j: int| 0 <= j < i && syms(#[trigger] s[j], x); }
    }
    assert forall|x: Key| restr_some(b, s, i + 1).count(x) == restr_some(b, s, i).add(restr(b, s[i])).count(x) by {
        lemma_some_syms(s, i, x);
        assert(!(some_syms(s, i, x) && syms(s[i], x)));
    }
    assert(restr_some(b, s, i + 1) =~= restr_some(b, s, i).add(restr(b, s[i])));
    assert forall|x: Key| restr_some(b, s, 0).count(x) == 0 by { lemma_some_syms(s, i, x); }
    assert(restr_some(b, s, 0) =~= Multiset::<Key>::empty());
}
/// `k` is the sum of feasible repetition counts of the first `i` members
pub open spec fn or_has(s: Seq<Rbe>, i: int, k: nat, b: MS) -> bool
    decreases i
{
    if i <= 0 { k == 0 } else { exists|k1: nat, k2: nat| k1 + k2 == k && #[trigger] tn2(k1, k2) && or_has(s, i - 1, k1, b) && lang_pow(s[i - 1], k2, restr(b, s[i - 1])) }
}
pub proof fn lemma_or_dec_disjoint(values: Vec<Rbe>, i: nat, k: nat, b: MS)
    requires disjoint(values@), i <= values@.len()
    ensures or_dec(values, i, k, restr_some(b, values@, i as int)) <==> or_has(values@, i as int, k, b)
    decreases i
{
    broadcast use group_multiset_axioms;
    let m = restr_some(b, values@, i as int);
    if i > 0 {
        let i1 = (i - 1) as nat; let v = values@[i - 1]; let m1 = restr_some(b, values@, i - 1); let m2 = restr(b, v);
        lemma_restr_next(b, values@, i - 1); lemma_restr(b, v); lemma_restr_some(b, values@, i - 1);
        if or_dec(values, i, k, m) {
            let (k1, k2, p, q) = choose|k1: nat, k2: nat, p: MS, q: MS| k1 + k2 == k && #[trigger] split(m, p, q) && #[trigger] tn2(k1, k2) && or_dec(values, i1, k1, p) && lang_pow(values@[i - 1], k2, q);
            assert forall|x: Key| p.count(x) == m1.count(x) && q.count(x) == m2.count(x) by {
                if !syms(v, x) { lemma_support_pow(v, k2, q, x); }
                if !some_syms(values@, i - 1, x) { lemma_or_dec_support(values, i1, k1, p, x); }
                assert(m.count(x) == p.add(q).count(x));
                assert(m.count(x) == m1.add(m2).count(x));
                assert(!(some_syms(values@, i - 1, x) && syms(v, x)));
            }
            assert(p =~= m1); assert(q =~= m2);
            lemma_or_dec_disjoint(values, i1, k1, b);
        }
        if or_has(values@, i as int, k, b) {
            let (k1, k2) = choose|k1: nat, k2: nat| k1 + k2 == k && #[trigger] tn2(k1, k2) && or_has(values@, i - 1, k1, b) && lang_pow(values@[i - 1], k2, restr(b, values@[i - 1]));
            lemma_or_dec_disjoint(values, i1, k1, b);
            assert(split(m, m1, m2));
        }
    } else {
        lemma_restr_some(b, values@, 0);
        assert forall|x: Key| m.count(x) == 0 by { assert(!some_syms(values@, 0, x)); }
        assert(m =~= Multiset::<Key>::empty());
    }
}
pub proof fn lemma_or_interval(values: Vec<Rbe>, k: nat, b: MS)
    requires disjoint(values@)
    ensures lang_pow(Rbe::Or { values }, k, restr(b, Rbe::Or { values })) <==> or_has(values@, values@.len() as int, k, b)
{
    let e = Rbe::Or { values };
    let n = values@.len();
    lemma_restr(b, e); lemma_restr_some(b, values@, n as int);
    assert forall|x: Key| restr(b, e).count(x) == restr_some(b, values@, n as int).count(x) by { lemma_syms_of(e, x); }
    assert(restr(b, e) =~= restr_some(b, values@, n as int));
    lemma_or_pow(values, k, restr(b, e));
    lemma_or_dec_disjoint(values, n, k, b);
}
