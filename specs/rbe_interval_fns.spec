/// interval of feasible repetition counts
pub open spec fn iv_ok(e: Rbe, b: MS, r: Interval) -> bool {
    (forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> lang_pow(e, k as nat, restr(b, e)))) && iv_bounded(r, restr(b, e).len())
}
/// finite bounds of a nonempty interval do not exceed the size of the bag
pub open spec fn iv_bounded(r: Interval, n: nat) -> bool { iv_nonempty(r) ==> r.n->IntMax_0 <= n && (r.m matches Max::IntMax(m) ==> m <= n) }
pub proof fn lemma_copies(v: Key, n: nat, x: Key)
    ensures Multiset::<Key>::from_map(map![v => n]).count(x) == (if x == v { n } else { 0 })
{ broadcast use group_multiset_axioms; let m = map![v => n]; assert(m.contains_key(v)); if x != v { assert(!m.contains_key(x)); } }
/// powers of a symbol
pub proof fn lemma_sym_pow(v: Key, c: Cardinality, k: nat, m: MS)
    requires forall|x: Key| x != v ==> #[trigger] m.count(x) == 0
    ensures lang_pow(Rbe::Symbol { value: v, card: c }, k, m) <==> card_pow(c, k as int, m.count(v) as int)
    decreases k
{
    broadcast use group_multiset_axioms;
    let e = Rbe::Symbol { value: v, card: c };
    let w = m.count(v) as int; let lo = c.min.value as int;
    if k == 0 {
        assert(0 * lo == 0) by(nonlinear_arith);
        if let Max::IntMax(hi) = c.max { assert(0 * hi as int == 0) by(nonlinear_arith); }
        if lang_pow(e, k, m) { assert(w == 0); }
        if w == 0 { assert(m =~= Multiset::<Key>::empty()); }
    } else {
        let k1 = (k - 1) as nat;
        assert(k * lo == k1 * lo + lo) by(nonlinear_arith) requires k == k1 + 1;
        if let Max::IntMax(hi) = c.max { assert(k * hi == k1 * hi + hi) by(nonlinear_arith) requires k == k1 + 1; }
        assert(k1 * lo >= 0) by(nonlinear_arith) requires k1 >= 0, lo >= 0;
        if lang_pow(e, k, m) {
            let (a, b) = choose|a: MS, b: MS| #[trigger] split(m, a, b) && lang(e, a) && lang_pow(e, k1, b);
            assert forall|x: Key| x != v implies #[trigger] b.count(x) == 0 by { assert(m.count(x) == a.add(b).count(x)); }
            lemma_sym_pow(v, c, k1, b);
            assert(w == a.count(v) + b.count(v));
        }
        if card_pow(c, k as int, w) {
            let i: int = match c.max {
                Max::Unbounded => if k == 1 { w } else { lo },
                Max::IntMax(hi) => if w <= lo + k1 * hi { lo } else { w - k1 * hi },
            };
            if c.max is Unbounded && k == 1 { assert(k1 * lo == 0) by(nonlinear_arith) requires k1 == 0; }
            if let Max::IntMax(hi) = c.max {
                assert(lo <= hi) by { if lo > hi { assert(k * lo > k * hi) by(nonlinear_arith) requires k >= 1, lo > hi; } }
                assert(k1 * hi >= k1 * lo) by(nonlinear_arith) requires k1 >= 0, hi >= lo;
            }
            assert(card_has(c, i) && 0 <= i <= w && card_pow(c, k1 as int, w - i));
            let a = Multiset::<Key>::from_map(map![v => i as nat]);
            let b = m.sub(a);
            assert forall|x: Key| m.count(x) == a.add(b).count(x) by { lemma_copies(v, i as nat, x); }
            assert forall|x: Key| x != v implies #[trigger] b.count(x) == 0 by { lemma_copies(v, i as nat, x); }
            lemma_copies(v, i as nat, v);
            assert(split(m, a, b)) by { assert(m =~= a.add(b)); }
            lemma_sym_pow(v, c, k1, b);
            assert(lang(e, a)) by { assert forall|x: Key| x != v implies #[trigger] a.count(x) == 0 by { lemma_copies(v, i as nat, x); } }
        }
    }
}
/// total of `k` occurrence counts each allowed by `c`
pub open spec fn card_pow(c: Cardinality, k: int, w: int) -> bool { iv_scale_le(k, Max::IntMax(c.min.value), w) && iv_scale_ge(k, c.max, w) }

/// repetitions of a group, from the iterations of its body
pub open spec fn group_iv(c: Cardinality, inner: Interval, k: int) -> bool {
    iv_nonempty(inner) && iv_scale_ge(k, c.max, inner.n->IntMax_0 as int) && (inner.m matches Max::IntMax(m) ==> iv_scale_le(k, Max::IntMax(c.min.value), m as int))
}
pub proof fn lemma_group_iv(e: Rbe, b: MS, inner: Interval, k: nat)
    requires e is Plus || e is Star || e is Repeat, wf(e), iv_ok(rep_value(e), b, inner)
    ensures lang_pow(e, k, restr(b, e)) <==> group_iv(rep_card(e), inner, k as int)
{
    let c = rep_card(e); let v = rep_value(e); let lo = c.min.value as int;
    assert forall|x: Key| #[trigger] syms(e, x) <==> syms(v, x) by {}
    lemma_restr_same(b, e, v);
    lemma_group_pow(e, k, restr(b, e));
    if let Max::IntMax(hi) = c.max { assert(k * lo <= k * hi) by(nonlinear_arith) requires k >= 0, lo <= hi; }
    assert(k * lo >= 0) by(nonlinear_arith) requires k >= 0, lo >= 0;
    if k == 0 { assert(k * lo == 0) by(nonlinear_arith) requires k == 0; }
    if exists|j: nat| gcard(c, k as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, restr(b, v)) {
        let j = choose|j: nat| gcard(c, k as int, j as int) && #[trigger] tn(j) && lang_pow(v, j, restr(b, v));
        assert(iv_has(inner, j as int));
    }
    if group_iv(c, inner, k as int) {
        let n = inner.n->IntMax_0 as int;
        let j: int = if n >= k * lo { n } else { k * lo };
        assert(iv_has(inner, j));
        let jn = j as nat;
        assert(tn(jn) && gcard(c, k as int, j) && lang_pow(v, jn, restr(b, v)));
    }
}
/// a nonempty bag is not the sum of no bags
pub proof fn lemma_nonempty_bag(e: Rbe, b: MS, inner: Interval)
    requires iv_ok(e, b, inner), !(restr(b, e) =~= Multiset::<Key>::empty())
    ensures iv_nonempty(inner) ==> inner.n->IntMax_0 >= 1, restr(b, e).len() >= 1
{
    broadcast use group_multiset_axioms;
    assert(!lang_pow(e, 0, restr(b, e)));
    assert(!iv_has(inner, 0));
    if restr(b, e).len() == 0 { assert forall|x: Key| restr(b, e).count(x) == 0 by { lemma_count_le_len(restr(b, e), x); } assert(restr(b, e) =~= Multiset::<Key>::empty()); }
}
/// groups over an empty bag
pub proof fn lemma_empty_bag(e: Rbe, b: MS, r: Interval)
    requires restr(b, e) =~= Multiset::<Key>::empty(), forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> k == 0 || lang(e, Multiset::empty())), r.n == Max::IntMax(0), r.m is Unbounded || r.m == Max::IntMax(0)
    ensures iv_ok(e, b, r)
{
    assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> lang_pow(e, k as nat, restr(b, e))) by { lemma_pow_nullable(e, k as nat); }
}
pub proof fn lemma_star_nullable(e: Rbe)
    ensures
        e is Star ==> lang(e, Multiset::empty()),
        e is Plus ==> (lang(e, Multiset::empty()) <==> lang(rep_value(e), Multiset::empty())),
{
    let z = Multiset::<Key>::empty();
    if e is Star { assert(tn(0)); assert(lang_pow(rep_value(e), 0, z)); }
    if e is Plus {
        if lang(rep_value(e), z) { lemma_pow_one(rep_value(e), z); assert(tn(1)); }
        if lang(e, z) { let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && lang_pow(rep_value(e), n, z); lemma_pow_nullable(rep_value(e), n); }
    }
}
pub proof fn lemma_sym_iv(e: Rbe, b: MS, r: Interval)
    requires e is Symbol, forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> card_pow(e->Symbol_card, k, b.count(e->Symbol_value) as int))
    ensures iv_ok(e, b, r)
{
    let v = e->Symbol_value; let c = e->Symbol_card; let m = restr(b, e);
    lemma_restr(b, e);
    assert(m.count(v) == b.count(v));
    assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> lang_pow(e, k as nat, m)) by { lemma_sym_pow(v, c, k as nat, m); }
    lemma_scaled_bounds(c, m.count(v) as int, r);
    lemma_count_le_len(m, v);
}
pub proof fn lemma_count_le_len(m: MS, v: Key)
    ensures m.count(v) <= m.len()
{
    broadcast use group_multiset_axioms;
    let a = Multiset::<Key>::from_map(map![v => m.count(v)]);
    assert forall|x: Key| m.count(x) == a.add(m.sub(a)).count(x) by { lemma_copies(v, m.count(v), x); }
    assert(m =~= a.add(m.sub(a)));
    lemma_copies_len(v, m.count(v));
}
pub proof fn lemma_copies_len(v: Key, n: nat)
    ensures Multiset::<Key>::from_map(map![v => n]).len() == n
    decreases n
{
    broadcast use group_multiset_axioms;
    let a = Multiset::<Key>::from_map(map![v => n]);
    if n == 0 { assert forall|x: Key| a.count(x) == 0 by { lemma_copies(v, n, x); } assert(a =~= Multiset::<Key>::empty()); }
    else {
        let a1 = Multiset::<Key>::from_map(map![v => (n - 1) as nat]);
        lemma_copies_len(v, (n - 1) as nat);
        assert forall|x: Key| a.count(x) == a1.insert(v).count(x) by { lemma_copies(v, n, x); lemma_copies(v, (n - 1) as nat, x); }
        assert(a =~= a1.insert(v));
    }
}
/// `k * lo <= w <= k * hi` bounds k by w
pub proof fn lemma_scaled_bounds(c: Cardinality, w: int, r: Interval)
    requires w >= 0, forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> card_pow(c, k, w))
    ensures iv_nonempty(r) ==> r.n->IntMax_0 <= w && (r.m matches Max::IntMax(m) ==> m <= w)
{
    if iv_nonempty(r) {
        let n = r.n->IntMax_0 as int; let lo = c.min.value as int;
        assert(iv_has(r, n));
        assert(n * lo >= 0) by(nonlinear_arith) requires n >= 0, lo >= 0;
        if n > w {
            // n - 1 >= w also works
            assert((n - 1) * lo <= n * lo) by(nonlinear_arith) requires n >= 1, lo >= 0;
            if let Max::IntMax(hi) = c.max {
                if hi == 0 { assert(n * hi == 0) by(nonlinear_arith) requires hi == 0; assert((n - 1) * hi == 0) by(nonlinear_arith) requires hi == 0; }
                else { assert((n - 1) * hi >= n - 1) by(nonlinear_arith) requires n >= 1, hi >= 1; }
            }
            assert(card_pow(c, n - 1, w)); assert(iv_has(r, n - 1));
        }
        if let Max::IntMax(m) = r.m {
            if m > w {
                assert(iv_has(r, m as int));
                if lo >= 1 { assert(m * lo >= m) by(nonlinear_arith) requires m >= 0, lo >= 1; }
                else {
                    assert((m + 1) * lo == 0) by(nonlinear_arith) requires lo == 0;
                    if let Max::IntMax(hi) = c.max { assert((m + 1) * hi >= m * hi) by(nonlinear_arith) requires hi >= 0; }
                    assert(card_pow(c, m + 1, w)); assert(iv_has(r, m + 1));
                }
            }
        }
    }
}
/// the interval of a group
pub proof fn lemma_rep_iv(e: Rbe, b: MS, inner: Interval, r: Interval)
    requires e is Plus || e is Star || e is Repeat, wf(e), iv_ok(rep_value(e), b, inner), forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> group_iv(rep_card(e), inner, k))
    ensures iv_ok(e, b, r)
{
    let c = rep_card(e); let v = rep_value(e);
    assert forall|x: Key| #[trigger] syms(e, x) <==> syms(v, x) by {}
    lemma_restr_same(b, e, v);
    assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> lang_pow(e, k as nat, restr(b, e))) by { lemma_group_iv(e, b, inner, k as nat); }
    if iv_nonempty(r) {
        let n = r.n->IntMax_0 as int; let lo = c.min.value as int; let w = inner.n->IntMax_0 as int;
        assert(iv_has(r, n));
        if n > w {
            assert((n - 1) * lo <= n * lo) by(nonlinear_arith) requires n >= 1, lo >= 0;
            if let Max::IntMax(hi) = c.max {
                if hi == 0 { assert(n * hi == 0) by(nonlinear_arith) requires hi == 0; assert((n - 1) * hi == 0) by(nonlinear_arith) requires hi == 0; }
                else { assert((n - 1) * hi >= n - 1) by(nonlinear_arith) requires n >= 1, hi >= 1; }
            }
            assert(group_iv(c, inner, n - 1)); assert(iv_has(r, n - 1));
        }
        if let Max::IntMax(m) = r.m {
            assert(iv_has(r, m as int));
            let bound: int = if let Max::IntMax(q) = inner.m { q as int } else { 0 };
            if m > bound {
                if lo >= 1 && inner.m is IntMax { assert(m * lo >= m) by(nonlinear_arith) requires m >= 0, lo >= 1; }
                else {
                    if lo == 0 { assert((m + 1) * lo == 0) by(nonlinear_arith) requires lo == 0; }
                    if let Max::IntMax(hi) = c.max { assert((m + 1) * hi >= m * hi) by(nonlinear_arith) requires hi >= 0; }
                    assert(group_iv(c, inner, m + 1)); assert(iv_has(r, m + 1));
                }
            } else if inner.m is Unbounded {
                if let Max::IntMax(hi) = c.max { assert((m + 1) * hi >= m * hi) by(nonlinear_arith) requires hi >= 0; }
                assert(group_iv(c, inner, m + 1)); assert(iv_has(r, m + 1));
            }
        }
    }
}

pub proof fn lemma_some_symbols(e: Rbe, b: MS, inner: Interval)
    requires wf(e), e is Star || e is Plus, iv_ok(rep_value(e), b, inner), iv_nonempty(inner), inner.n->IntMax_0 >= 1,
    ensures e is Star ==> forall|r: Interval| r.n == Max::IntMax(1) && r.m is Unbounded ==> #[trigger] iv_ok(e, b, r),
        e is Plus ==> forall|r: Interval| r.n == Max::IntMax(1) && r.m == inner.m ==> #[trigger] iv_ok(e, b, r),
{
    assert forall|r: Interval| e is Star && r.n == Max::IntMax(1) && r.m is Unbounded implies #[trigger] iv_ok(e, b, r) by {
        assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> group_iv(rep_card(e), inner, k)) by {}
        lemma_rep_iv(e, b, inner, r); }
    assert forall|r: Interval| e is Plus && r.n == Max::IntMax(1) && r.m == inner.m implies #[trigger] iv_ok(e, b, r) by {
        assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> group_iv(rep_card(e), inner, k)) by { assert(rep_card(e).min.value == 1); if let Max::IntMax(m) = inner.m { assert(iv_scale_le(k, Max::IntMax(1), m as int) <==> k <= m); } }
        lemma_rep_iv(e, b, inner, r); }
}
pub proof fn lemma_interval_arms(e: Rbe, b: MS)
    requires wf(e)
    ensures
        e is Empty ==> forall|r: Interval| r.n == Max::IntMax(0) && r.m is Unbounded ==> #[trigger] iv_ok(e, b, r),
        e is Symbol ==> forall|r: Interval| (forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> card_pow(e->Symbol_card, k, b.count(e->Symbol_value) as int))) ==> #[trigger] iv_ok(e, b, r),
        restr(b, e) =~= Multiset::<Key>::empty() && (e is Star || e is Plus && lang(rep_value(e), Multiset::empty())) ==> forall|r: Interval| r.n == Max::IntMax(0) && r.m is Unbounded ==> #[trigger] iv_ok(e, b, r),
        restr(b, e) =~= Multiset::<Key>::empty() && e is Plus && !lang(rep_value(e), Multiset::empty()) ==> forall|r: Interval| r.n == Max::IntMax(0) && r.m == Max::IntMax(0) ==> #[trigger] iv_ok(e, b, r),
        e is Star || e is Plus || e is Repeat ==> forall|inner: Interval, r: Interval| #![trigger iv_ok(rep_value(e), b, inner), iv_ok(e, b, r)] iv_ok(rep_value(e), b, inner) && (forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> group_iv(rep_card(e), inner, k))) ==> iv_ok(e, b, r),
        !(restr(b, e) =~= Multiset::<Key>::empty()) && (e is Star || e is Plus) ==> forall|inner: Interval| #[trigger] iv_ok(rep_value(e), b, inner) ==> (iv_nonempty(inner) ==> inner.n->IntMax_0 >= 1),
{
    let z = Multiset::<Key>::empty();
    if e is Empty {
        lemma_restr(b, e);
        assert forall|x: Key| restr(b, e).count(x) == 0 by {}
        assert(restr(b, e) =~= z);
        assert forall|r: Interval| r.n == Max::IntMax(0) && r.m is Unbounded implies #[trigger] iv_ok(e, b, r) by { lemma_empty_bag(e, b, r); }
    }
    if e is Symbol {
        assert forall|r: Interval| (forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> card_pow(e->Symbol_card, k, b.count(e->Symbol_value) as int))) implies #[trigger] iv_ok(e, b, r) by { lemma_sym_iv(e, b, r); }
    }
    lemma_star_nullable(e);
    if restr(b, e) =~= z && (e is Star || e is Plus && lang(rep_value(e), z)) {
        assert forall|r: Interval| r.n == Max::IntMax(0) && r.m is Unbounded implies #[trigger] iv_ok(e, b, r) by { lemma_empty_bag(e, b, r); }
    }
    if restr(b, e) =~= z && e is Plus && !lang(rep_value(e), z) {
        assert forall|r: Interval| r.n == Max::IntMax(0) && r.m == Max::IntMax(0) implies #[trigger] iv_ok(e, b, r) by { lemma_empty_bag(e, b, r); }
    }
    if e is Star || e is Plus || e is Repeat {
        assert forall|inner: Interval, r: Interval| #![trigger iv_ok(rep_value(e), b, inner), iv_ok(e, b, r)] iv_ok(rep_value(e), b, inner) && (forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> group_iv(rep_card(e), inner, k))) implies iv_ok(e, b, r) by { lemma_rep_iv(e, b, inner, r); }
        lemma_restr(b, e); lemma_restr(b, rep_value(e));
        assert forall|x: Key| #[trigger] syms(e, x) <==> syms(rep_value(e), x) by {}
        lemma_restr_same(b, e, rep_value(e));
        if !(restr(b, e) =~= z) {
            assert forall|inner: Interval| #[trigger] iv_ok(rep_value(e), b, inner) implies (iv_nonempty(inner) ==> inner.n->IntMax_0 >= 1) by { lemma_nonempty_bag(rep_value(e), b, inner); }
        }
    }
}
/// all of the first `i` members allow `k` repetitions
pub open spec fn and_upto(s: Seq<Rbe>, i: int, k: nat, b: MS) -> bool { forall|j: int| 0 <= j < i ==> lang_pow(#[trigger] s[j], k, restr(b, s[j])) }
pub proof fn lemma_meet_bounded(a: Interval, c: Interval, r: Interval, n: nat)
    requires iv_bounded(a, n), iv_bounded(c, n), forall|v: int| v >= 0 ==> (#[trigger] iv_has(r, v) <==> iv_has(a, v) && iv_has(c, v))
    ensures iv_bounded(r, n)
{
    if iv_nonempty(r) {
        let p = r.n->IntMax_0 as int;
        assert(iv_has(r, p)); if p > 0 { assert(!iv_has(r, p - 1)); assert(iv_has(a, p - 1) <==> a.n->IntMax_0 <= p - 1); }
        if let Max::IntMax(q) = r.m { assert(!iv_has(r, q + 1)); assert(iv_has(r, q as int)); assert(!iv_has(a, q + 1) || !iv_has(c, q + 1)); }
    }
}
pub proof fn lemma_len_mono(a: MS, b: MS)
    requires forall|k: Key| #[trigger] a.count(k) <= b.count(k)
    ensures a.len() <= b.len()
{ broadcast use group_multiset_axioms; assert(b =~= a.add(b.sub(a))); }
pub proof fn lemma_restr_len(b: MS, e: Rbe, v: Rbe)
    requires forall|k: Key| syms(v, k) ==> #[trigger] syms(e, k)
    ensures restr(b, v).len() <= restr(b, e).len(), restr(b, e).len() <= b.len()
{ lemma_restr(b, e); lemma_restr(b, v);
  assert forall|k: Key| #[trigger] restr(b, v).count(k) <= restr(b, e).count(k) by { assert(syms(v, k) ==> syms(e, k)); }
  lemma_len_mono(restr(b, v), restr(b, e)); lemma_len_mono(restr(b, e), b); }
pub proof fn lemma_and_step(e: Rbe, b: MS, i: int, acc: Interval, v: Interval, r: Interval)
    requires
        e is And, 0 <= i < e->And_values@.len(), iv_ok(e->And_values@[i], b, v),
        forall|k: int| k >= 0 ==> (#[trigger] iv_has(acc, k) <==> and_upto(e->And_values@, i, k as nat, b)), iv_bounded(acc, restr(b, e).len()),
        forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> iv_has(acc, k) && iv_has(v, k)),
    ensures
        forall|k: int| k >= 0 ==> (#[trigger] iv_has(r, k) <==> and_upto(e->And_values@, i + 1, k as nat, b)), iv_bounded(r, restr(b, e).len()),
{
    let s = e->And_values@;
    assert forall|k: Key| syms(s[i], k) implies #[trigger] syms(e, k) by { lemma_syms_of(e, k); }
    lemma_restr_len(b, e, s[i]);
    lemma_meet_bounded(acc, v, r, restr(b, e).len());
    assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> and_upto(s, i + 1, k as nat, b)) by {
        if and_upto(s, i + 1, k as nat, b) { assert(lang_pow(s[i], k as nat, restr(b, s[i]))); assert(and_upto(s, i, k as nat, b)); }
    }
}
pub proof fn lemma_and_done(e: Rbe, b: MS, acc: Interval)
    requires
        e is And, sorbe(e),
        forall|k: int| k >= 0 ==> (#[trigger] iv_has(acc, k) <==> and_upto(e->And_values@, e->And_values@.len() as int, k as nat, b)), iv_bounded(acc, restr(b, e).len()),
    ensures iv_ok(e, b, acc)
{
    assert forall|k: int| k >= 0 implies (#[trigger] iv_has(acc, k) <==> lang_pow(e, k as nat, restr(b, e))) by { lemma_and_interval(e->And_values, k as nat, b); }
}
pub open spec fn or_inv(e: Rbe, b: MS, i: int, acc: Interval) -> bool {
    (forall|k: int| k >= 0 ==> (#[trigger] iv_has(acc, k) <==> or_has(e->Or_values@, i, k as nat, b))) && iv_bounded(acc, restr_some(b, e->Or_values@, i).len())
}
/// sum of two nonempty intervals
pub open spec fn iv_sum(a: Interval, c: Interval, r: Interval) -> bool {
    r.n is IntMax && r.n->IntMax_0 == a.n->IntMax_0 + c.n->IntMax_0 && (r.m is Unbounded <==> a.m is Unbounded || c.m is Unbounded) && (r.m is IntMax ==> r.m->IntMax_0 == a.m->IntMax_0 + c.m->IntMax_0)
}
pub open spec fn and_step_ok(e: Rbe, b: MS, i: int, acc: Interval) -> bool { (forall|k: int| k >= 0 ==> (#[trigger] iv_has(acc, k) <==> and_upto(e->And_values@, i, k as nat, b))) && iv_bounded(acc, restr(b, e).len()) }
pub proof fn lemma_or_empty(e: Rbe, b: MS, i: int, acc: Interval)
    requires e is Or, sorbe(e), 0 <= i < e->Or_values@.len(), or_inv(e, b, i, acc), !iv_nonempty(acc)
    ensures or_inv(e, b, i + 1, acc)
{
    lemma_nonempty(acc);
    let s = e->Or_values@;
    assert forall|k: int| k >= 0 implies (#[trigger] iv_has(acc, k) <==> or_has(s, i + 1, k as nat, b)) by {
        if or_has(s, i + 1, k as nat, b) {
            let (k1, k2) = choose|k1: nat, k2: nat| k1 + k2 == k as nat && #[trigger] tn2(k1, k2) && or_has(s, i, k1, b) && lang_pow(s[i], k2, restr(b, s[i]));
            assert(iv_has(acc, k1 as int));
        }
    }
}
pub open spec fn or_step(e: Rbe, b: MS, i: int, acc: Interval, v: Interval) -> bool {
    &&& forall|r: Interval| (!iv_nonempty(acc) || !iv_nonempty(v)) && !iv_nonempty(r) ==> #[trigger] or_inv(e, b, i + 1, r)
    &&& forall|r: Interval| iv_nonempty(acc) && iv_nonempty(v) && iv_sum(acc, v, r) ==> #[trigger] or_inv(e, b, i + 1, r)
    &&& iv_nonempty(acc) && iv_nonempty(v) ==> acc.n->IntMax_0 + v.n->IntMax_0 <= b.len() && (acc.m is IntMax && v.m is IntMax ==> acc.m->IntMax_0 + v.m->IntMax_0 <= b.len())
}
pub proof fn lemma_or_step(e: Rbe, b: MS, i: int, acc: Interval, v: Interval)
    requires e is Or, sorbe(e), 0 <= i < e->Or_values@.len(), iv_ok(e->Or_values@[i], b, v), or_inv(e, b, i, acc)
    ensures
        // one of them empty: no sum
        forall|r: Interval| (!iv_nonempty(acc) || !iv_nonempty(v)) && !iv_nonempty(r) ==> #[trigger] or_inv(e, b, i + 1, r),
        forall|r: Interval| iv_nonempty(acc) && iv_nonempty(v) && iv_sum(acc, v, r) ==> #[trigger] or_inv(e, b, i + 1, r),
        iv_nonempty(acc) && iv_nonempty(v) ==> acc.n->IntMax_0 + v.n->IntMax_0 <= b.len() && (acc.m is IntMax && v.m is IntMax ==> acc.m->IntMax_0 + v.m->IntMax_0 <= b.len()),
{
    broadcast use group_multiset_axioms;
    let s = e->Or_values@;
    lemma_restr_next(b, s, i);
    lemma_restr_some(b, s, i + 1);
    lemma_len_mono(restr_some(b, s, i + 1), b);
    assert forall|r: Interval| (!iv_nonempty(acc) || !iv_nonempty(v)) && !iv_nonempty(r) implies #[trigger] or_inv(e, b, i + 1, r) by {
        lemma_nonempty(r); lemma_nonempty(acc); lemma_nonempty(v);
        assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> or_has(s, i + 1, k as nat, b)) by {
            if or_has(s, i + 1, k as nat, b) {
                let (k1, k2) = choose|k1: nat, k2: nat| k1 + k2 == k as nat && #[trigger] tn2(k1, k2) && or_has(s, i, k1, b) && lang_pow(s[i], k2, restr(b, s[i]));
                assert(iv_has(acc, k1 as int)); assert(iv_has(v, k2 as int));
            }
        }
    }
    assert forall|r: Interval| iv_nonempty(acc) && iv_nonempty(v) && iv_sum(acc, v, r) implies #[trigger] or_inv(e, b, i + 1, r) by {
        assert forall|k: int| k >= 0 implies (#[trigger] iv_has(r, k) <==> or_has(s, i + 1, k as nat, b)) by {
            if or_has(s, i + 1, k as nat, b) {
                let (k1, k2) = choose|k1: nat, k2: nat| k1 + k2 == k as nat && #[trigger] tn2(k1, k2) && or_has(s, i, k1, b) && lang_pow(s[i], k2, restr(b, s[i]));
                assert(iv_has(acc, k1 as int)); assert(iv_has(v, k2 as int));
            }
            if iv_has(r, k) {
                let a = acc.n->IntMax_0 as int; let c = v.n->IntMax_0 as int;
                // take as many as possible from the first, at least its minimum
                let k1: int = match acc.m { Max::Unbounded => k - c, Max::IntMax(m) => if k - c <= m { k - c } else { m as int } };
                let k2 = k - k1;
                assert(iv_has(acc, k1)); assert(iv_has(v, k2));
                assert(tn2(k1 as nat, k2 as nat));
                assert(or_has(s, i, k1 as nat, b)); assert(lang_pow(s[i], k2 as nat, restr(b, s[i])));
            }
        }
    }
}
pub proof fn lemma_or_done(e: Rbe, b: MS, acc: Interval)
    requires e is Or, sorbe(e), or_inv(e, b, e->Or_values@.len() as int, acc)
    ensures iv_ok(e, b, acc)
{
    let n = e->Or_values@.len() as int;
    assert forall|k: int| k >= 0 implies (#[trigger] iv_has(acc, k) <==> lang_pow(e, k as nat, restr(b, e))) by { lemma_or_interval(e->Or_values, k as nat, b); }
    lemma_restr(b, e); lemma_restr_some(b, e->Or_values@, n);
    assert forall|x: Key| restr(b, e).count(x) == restr_some(b, e->Or_values@, n).count(x) by { lemma_syms_of(e, x); }
    assert(restr(b, e) =~= restr_some(b, e->Or_values@, n));
}
pub proof fn lemma_or_init(e: Rbe, b: MS, acc: Interval)
    requires e is Or, acc.n == Max::IntMax(0), acc.m == Max::IntMax(0)
    ensures or_inv(e, b, 0, acc)
{}
pub proof fn lemma_repeat_arm(e: Rbe, b: MS, inner: Interval)
    requires e is Repeat, wf(e), iv_ok(rep_value(e), b, inner)
    ensures
        iv_nonempty(inner) ==> forall|r: Interval| up_ok(r.n, rep_card(e).max, inner.n->IntMax_0 as int) && (inner.m is Unbounded ==> r.m is Unbounded) && (inner.m matches Max::IntMax(m) ==> down_ok(r.m, Max::IntMax(rep_card(e).min.value), m as int)) ==> #[trigger] iv_ok(e, b, r),
        !iv_nonempty(inner) ==> forall|r: Interval| !iv_nonempty(r) ==> #[trigger] iv_ok(e, b, r),
{
    if iv_nonempty(inner) {
        assert forall|r: Interval| up_ok(r.n, rep_card(e).max, inner.n->IntMax_0 as int) && (inner.m is Unbounded ==> r.m is Unbounded) && (inner.m matches Max::IntMax(m) ==> down_ok(r.m, Max::IntMax(rep_card(e).min.value), m as int)) implies #[trigger] iv_ok(e, b, r) by { lemma_rep_iv(e, b, inner, r); }
    } else {
        assert forall|r: Interval| !iv_nonempty(r) implies #[trigger] iv_ok(e, b, r) by { lemma_nonempty(r); lemma_rep_iv(e, b, inner, r); }
    }
}
@file rbe/src/rbe.rs
@fn Rbe::no_symbols_in_bag r
    ensures r <==> restr($1@, *self) =~= Multiset::<Key>::empty()
@loop 0
    invariant $acc <==> forall|j: int| 0 <= j < $i ==> $1@.count(#[trigger] $c@[j]) == 0
@loopbefore 0
    proof { lemma_restr($1@, *self); }
@loopafter 0
    proof {
        broadcast use group_multiset_axioms;
        let z = Multiset::<Key>::empty();
        if $acc { assert forall|x: Key| restr($1@, *self).count(x) == z.count(x) by { if syms(*self, x) { assert(syms_set(*self).contains(x)); assert($c@.contains(x)); } } assert(restr($1@, *self) =~= z); }
        else { let j = choose|j: int| 0 <= j < $i && $1@.count(#[trigger] $c@[j]) != 0; assert($c@.contains($c@[j])); assert(syms_set(*self).contains($c@[j])); assert(restr($1@, *self).count($c@[j]) != z.count($c@[j])); }
    }
@endfn
@fn Rbe::interval r
    requires wf(*self), sorbe(*self), nofail(*self), $1@.len() <= usize::MAX
    ensures iv_ok(*self, $1@, r)
    decreases self
@attrs #[verifier::loop_isolation(false)]
@start
    proof { lemma_interval_arms(*self, $1@); }
@leaf
    proof { assert(iv_ok(*self, $1@, vx_leaf)); }
@afterlet inner
    proof { if *self is Repeat { assert(iv_ok(rep_value(*self), $1@, inner)); lemma_repeat_arm(*self, $1@, inner); } if !iv_nonempty(inner) { assert forall|r: Interval| !iv_nonempty(r) implies #[trigger] iv_ok(*self, $1@, r) by { lemma_nonempty(r); } } }
@afterlet interval
    proof { assert(iv_ok(rep_value(*self), $1@, interval)); if iv_nonempty(interval) { lemma_some_symbols(*self, $1@, interval); } if !iv_nonempty(interval) { assert forall|r: Interval| !iv_nonempty(r) implies #[trigger] iv_ok(*self, $1@, r) by { lemma_nonempty(r); } } }
@loop 0
    invariant
        *self is And, *values == self->And_values,
        forall|k: int| k >= 0 ==> (#[trigger] iv_has($acc, k) <==> and_upto(values@, $i as int, k as nat, $1@)),
        iv_bounded($acc, restr($1@, *self).len()),
@loopstart 0
    let ghost vx_acc = $acc;
@loopend 0
    proof { assert forall|v: Interval| #[trigger] iv_ok(values@[$i - 1], $1@, v) && (forall|k: int| k >= 0 ==> (#[trigger] iv_has($acc, k) <==> iv_has(vx_acc, k) && iv_has(v, k))) implies and_step_ok(*self, $1@, $i as int, $acc) by { lemma_and_step(*self, $1@, $i - 1, vx_acc, v, $acc); } }
@loopafter 0
    proof { lemma_and_done(*self, $1@, $acc); }
@loopbefore 1
    proof { lemma_or_init(*self, $1@, $acc); }
@loopstart 1
    let ghost vx_acc = $acc;
    proof { if !iv_nonempty(vx_acc) { lemma_or_empty(*self, $1@, $i as int, vx_acc); } assert forall|v: Interval| #[trigger] iv_ok(values@[$i as int], $1@, v) implies or_step(*self, $1@, $i as int, vx_acc, v) by { lemma_or_step(*self, $1@, $i as int, vx_acc, v); } }
@loopafter 1
    proof { lemma_or_done(*self, $1@, $acc); }
@loop 1
    invariant
        *self is Or, *values == self->Or_values, or_inv(*self, $1@, $i as int, $acc)
@endfn
