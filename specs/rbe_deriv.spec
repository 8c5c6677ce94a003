// ---- derivative: abstract statement ----
/// `r` is the derivative of `e` by `x`; a skipped symbol (extra symbol in open mode) leaves the language unchanged
pub open spec fn dv(e: Rbe, r: Rbe, x: Key, skip: bool) -> bool {
    forall|m: MS| #![trigger lang(r, m)] #![trigger lang(e, adj(m, x, skip))] lang(r, m) <==> lang(e, adj(m, x, skip))
}
/// the bag before `x` was consumed (`skip`: x is an extra symbol and is ignored)
pub open spec fn adj(m: MS, x: Key, skip: bool) -> MS { if skip { m } else { m.insert(x) } }
pub open spec fn sub_syms(r: Rbe, e: Rbe) -> bool { forall|k: Key| #[trigger] syms(r, k) ==> syms(e, k) }
/// conjunction of two languages
pub open spec fn lang2(a: Rbe, b: Rbe, m: MS) -> bool { exists|p: MS, q: MS| #[trigger] split(m, p, q) && lang(a, p) && lang(b, q) }
/// words of values[i..] + {x} in which the j-th component takes x
pub open spec fn and_at(values: Vec<Rbe>, i: nat, j: nat, x: Key, m: MS) -> bool
    decreases values@.len() - i
{
    if i >= values@.len() { false }
    else if i == j { exists|a: MS, b: MS| #[trigger] split(m, a, b) && lang(values@[i as int], a.insert(x)) && lang_and(values, i + 1, b) }
    else { exists|a: MS, b: MS| #[trigger] split(m, a, b) && lang(values@[i as int], a) && and_at(values, i + 1, j, x, b) }
}
pub proof fn lemma_take_out(m: MS, x: Key, a: MS, b: MS)
    requires split(m.insert(x), a, b)
    ensures
        a.count(x) > 0 ==> a == a.remove(x).insert(x) && split(m, a.remove(x), b),
        b.count(x) > 0 ==> b == b.remove(x).insert(x) && split(m, a, b.remove(x)),
        a.count(x) > 0 || b.count(x) > 0,
{
    broadcast use group_multiset_axioms;
    assert(m.insert(x).count(x) == a.add(b).count(x));
    if a.count(x) > 0 {
        assert(a =~= a.remove(x).insert(x));
        assert forall|k: Key| m.count(k) == a.remove(x).add(b).count(k) by { assert(m.insert(x).count(k) == a.add(b).count(k)); }
        assert(m =~= a.remove(x).add(b));
    }
    if b.count(x) > 0 {
        assert(b =~= b.remove(x).insert(x));
        assert forall|k: Key| m.count(k) == a.add(b.remove(x)).count(k) by { assert(m.insert(x).count(k) == a.add(b).count(k)); }
        assert(m =~= a.add(b.remove(x)));
    }
}
pub proof fn lemma_put_in(m: MS, x: Key, a: MS, b: MS)
    requires split(m, a, b)
    ensures split(m.insert(x), a.insert(x), b), split(m.insert(x), a, b.insert(x))
{
    broadcast use group_multiset_axioms;
    assert(m.insert(x) =~= a.insert(x).add(b));
    assert(m.insert(x) =~= a.add(b.insert(x)));
}
pub proof fn lemma_split_comm(m: MS, a: MS, b: MS) requires split(m, a, b) ensures split(m, b, a) { broadcast use group_multiset_axioms; assert(m =~= b.add(a)); }
/// a + (b + c) = (a + b) + c = b + (a + c)
pub proof fn lemma_split_assoc(m: MS, a: MS, r: MS, b: MS, c: MS)
    requires split(m, a, r), split(r, b, c)
    ensures split(m, a.add(b), c), split(m, b, a.add(c)), split(a.add(b), a, b), split(a.add(c), a, c), split(m, a.add(c), b), split(m, c, a.add(b))
{
    broadcast use group_multiset_axioms;
    assert(m =~= a.add(b).add(c)); assert(m =~= b.add(a.add(c))); assert(m =~= a.add(c).add(b)); assert(m =~= c.add(a.add(b)));
}
pub proof fn lemma_split_empty(m: MS) ensures split(m, m, Multiset::empty()), split(m, Multiset::empty(), m) { broadcast use group_multiset_axioms; assert(m =~= m.add(Multiset::empty())); assert(m =~= Multiset::empty().add(m)); }
pub proof fn lemma_insert_ne(m: MS, x: Key) ensures !(m.insert(x) =~= Multiset::<Key>::empty()), m.insert(x).count(x) > 0 { broadcast use group_multiset_axioms; assert(m.insert(x).count(x) == m.count(x) + 1); assert(Multiset::<Key>::empty().count(x) == 0); }

// ---- and ----
pub proof fn lemma_and_at_fwd(values: Vec<Rbe>, i: nat, x: Key, m: MS) -> (j: nat)
    requires lang_and(values, i, m.insert(x))
    ensures i <= j < values@.len(), and_at(values, i, j, x, m)
    decreases values@.len() - i
{
    lemma_insert_ne(m, x);
    let (a, b) = choose|a: MS, b: MS| #[trigger] split(m.insert(x), a, b) && lang(values@[i as int], a) && lang_and(values, i + 1, b);
    lemma_take_out(m, x, a, b);
    if a.count(x) > 0 { i }
    else { let j = lemma_and_at_fwd(values, i + 1, x, b.remove(x)); assert(split(m, a, b.remove(x))); j }
}
pub proof fn lemma_and_at_bwd(values: Vec<Rbe>, i: nat, j: nat, x: Key, m: MS)
    requires and_at(values, i, j, x, m)
    ensures lang_and(values, i, m.insert(x))
    decreases values@.len() - i
{
    if i == j {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(values@[i as int], a.insert(x)) && lang_and(values, i + 1, b);
        lemma_put_in(m, x, a, b);
        assert(split(m.insert(x), a.insert(x), b));
    } else {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(values@[i as int], a) && and_at(values, i + 1, j, x, b);
        lemma_and_at_bwd(values, i + 1, j, x, b);
        lemma_put_in(m, x, a, b);
        assert(split(m.insert(x), a, b.insert(x)));
    }
}
/// conjunctions with pointwise equal languages are equal
pub proof fn lemma_and_ext(v: Vec<Rbe>, w: Vec<Rbe>, i: nat, m: MS)
    requires v@.len() == w@.len(), forall|j: int, n: MS| i <= j < v@.len() ==> (#[trigger] lang(v@[j], n) <==> lang(w@[j], n)), lang_and(v, i, m)
    ensures lang_and(w, i, m)
    decreases v@.len() - i
{
    if i < v@.len() {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(v@[i as int], a) && lang_and(v, i + 1, b);
        assert(lang(v@[i as int], a));
        lemma_and_ext(v, w, i + 1, b);
    }
}
pub proof fn lemma_and_upd(v: Vec<Rbe>, w: Vec<Rbe>, i: nat, j: nat, d: Rbe, x: Key, m: MS)
    requires w@ =~= v@.update(j as int, d), i <= j < v@.len(), dv(v@[j as int], d, x, false)
    ensures and_at(v, i, j, x, m) <==> lang_and(w, i, m)
    decreases v@.len() - i
{
    if i == j {
        if and_at(v, i, j, x, m) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(v@[i as int], a.insert(x)) && lang_and(v, i + 1, b);
            assert(lang(d, a)); lemma_and_ext(v, w, i + 1, b); assert(lang(w@[i as int], a));
        }
        if lang_and(w, i, m) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(w@[i as int], a) && lang_and(w, i + 1, b);
            assert(lang(d, a)); lemma_and_ext(w, v, i + 1, b);
        }
    } else {
        if and_at(v, i, j, x, m) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(v@[i as int], a) && and_at(v, i + 1, j, x, b);
            lemma_and_upd(v, w, i + 1, j, d, x, b);
            assert(lang(w@[i as int], a));
        }
        if lang_and(w, i, m) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(w@[i as int], a) && lang_and(w, i + 1, b);
            lemma_and_upd(v, w, i + 1, j, d, x, b);
            assert(lang(v@[i as int], a));
        }
    }
}
// ---- repetitions ----
pub proof fn lemma_pow_fwd(e: Rbe, n: nat, x: Key, m: MS) -> (r: (MS, MS))
    requires lang_pow(e, n, m.insert(x))
    ensures n >= 1, split(m, r.0, r.1), lang(e, r.0.insert(x)), lang_pow(e, (n - 1) as nat, r.1)
    decreases n
{
    lemma_insert_ne(m, x);
    let (a, b) = choose|a: MS, b: MS| #[trigger] split(m.insert(x), a, b) && lang(e, a) && lang_pow(e, (n - 1) as nat, b);
    lemma_take_out(m, x, a, b);
    if a.count(x) > 0 { (a.remove(x), b) }
    else {
        let (c, d) = lemma_pow_fwd(e, (n - 1) as nat, x, b.remove(x));
        // m = a + (c + d), x joins c; the rest is a + d
        lemma_split_assoc(m, a, b.remove(x), c, d);
        assert(split(a.add(d), a, d));
        assert(lang_pow(e, (n - 1) as nat, a.add(d)));
        (c, a.add(d))
    }
}
pub proof fn lemma_pow_bwd(e: Rbe, n: nat, x: Key, m: MS, a: MS, b: MS)
    requires split(m, a, b), lang(e, a.insert(x)), lang_pow(e, n, b)
    ensures lang_pow(e, n + 1, m.insert(x))
{
    lemma_put_in(m, x, a, b);
    assert(split(m.insert(x), a.insert(x), b));
}
pub proof fn lemma_pow_one(e: Rbe, m: MS)
    ensures lang_pow(e, 1, m) <==> lang(e, m)
{
    broadcast use group_multiset_axioms;
    lemma_split_empty(m);
    reveal_with_fuel(lang_pow, 3);
    if lang(e, m) { assert(split(m, m, Multiset::empty()) && lang(e, m) && lang_pow(e, 0, Multiset::empty())); }
    if lang_pow(e, 1, m) {
        let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, 0, b);
        assert(m =~= a);
    }
}
pub proof fn lemma_pow_empty(e: Rbe, n: nat)
    requires forall|m: MS| #[trigger] lang(e, m) <==> m =~= Multiset::<Key>::empty()
    ensures forall|m: MS| #[trigger] lang_pow(e, n, m) <==> m =~= Multiset::<Key>::empty()
    decreases n
{
    broadcast use group_multiset_axioms;
    if n > 0 {
        lemma_pow_empty(e, (n - 1) as nat);
        lemma_split_empty(Multiset::<Key>::empty());
        assert forall|m: MS| #[trigger] lang_pow(e, n, m) <==> m =~= Multiset::<Key>::empty() by {
            if lang_pow(e, n, m) {
                let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, (n - 1) as nat, b);
                assert(m =~= Multiset::<Key>::empty());
            }
            if m =~= Multiset::<Key>::empty() { assert(split(m, Multiset::empty(), Multiset::empty()) && lang(e, Multiset::empty()) && lang_pow(e, (n - 1) as nat, Multiset::empty())); }
        }
    }
}
/// the empty bag and repetitions
pub proof fn lemma_pow_nullable(e: Rbe, n: nat)
    ensures lang_pow(e, n, Multiset::empty()) <==> n == 0 || lang(e, Multiset::empty())
    decreases n
{
    broadcast use group_multiset_axioms;
    let z = Multiset::<Key>::empty();
    if n > 0 {
        lemma_pow_nullable(e, (n - 1) as nat);
        lemma_split_empty(z);
        if lang(e, z) { assert(split(z, z, z) && lang(e, z) && lang_pow(e, (n - 1) as nat, z)); }
        if lang_pow(e, n, z) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(z, a, b) && lang(e, a) && lang_pow(e, (n - 1) as nat, b);
            assert forall|k: Key| a.count(k) == 0 by { assert(z.count(k) == a.add(b).count(k)); }
            assert(a =~= z);
        }
    }
}
pub proof fn lemma_and_nullable(values: Vec<Rbe>, i: nat)
    ensures lang_and(values, i, Multiset::empty()) <==> forall|j: int| i <= j < values@.len() ==> lang(#[trigger] values@[j], Multiset::empty())
    decreases values@.len() - i
{
    broadcast use group_multiset_axioms;
    let z = Multiset::<Key>::empty();
    if i < values@.len() {
        lemma_and_nullable(values, i + 1);
        lemma_split_empty(z);
        if (forall|j: int| i <= j < values@.len() ==> lang(#[trigger] values@[j], z)) { assert(lang(values@[i as int], z)); assert(split(z, z, z) && lang(values@[i as int], z) && lang_and(values, i + 1, z)); }
        if lang_and(values, i, z) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(z, a, b) && lang(values@[i as int], a) && lang_and(values, i + 1, b);
            assert forall|k: Key| a.count(k) == 0 && b.count(k) == 0 by { assert(z.count(k) == a.add(b).count(k)); }
            assert(a =~= z); assert(b =~= z);
        }
    }
}
/// languages of the group operators, given the languages of the parts
pub proof fn lemma_rep_deriv(e: Rbe, card: Cardinality, d: Rbe, rest: Rbe, x: Key, m: MS)
    requires
        dv(e, d, x, false), le_max(1, card.max),
        forall|q: MS| #[trigger] lang(rest, q) <==> exists|n: nat| #[trigger] tn(n) && lang_pow(e, n, q) && card_has(card, n as int + 1),
    ensures lang2(d, rest, m) <==> exists|n: nat| card_has(card, n as int) && #[trigger] tn(n) && lang_pow(e, n, m.insert(x)),
{
    if lang2(d, rest, m) {
        let (p, q) = choose|p: MS, q: MS| #[trigger] split(m, p, q) && lang(d, p) && lang(rest, q);
        let n = choose|n: nat| #[trigger] tn(n) && lang_pow(e, n, q) && card_has(card, n as int + 1);
        assert(lang(e, p.insert(x)));
        lemma_pow_bwd(e, n, x, m, p, q);
        assert(tn(n + 1));
    }
    if exists|n: nat| card_has(card, n as int) && #[trigger] tn(n) && lang_pow(e, n, m.insert(x)) {
        let n = choose|n: nat| card_has(card, n as int) && #[trigger] tn(n) && lang_pow(e, n, m.insert(x));
        let (p, q) = lemma_pow_fwd(e, n, x, m);
        assert(lang(d, p));
        assert(tn((n - 1) as nat));
        assert(lang(rest, q));
        assert(split(m, p, q));
    }
}
