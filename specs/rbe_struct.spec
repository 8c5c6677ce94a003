// ---- RbeStruct: cached symbols and the single-occurrence flag ----
@file rbe/src/min.rs
@fn Min@From<usize>::from r
    ensures r.value == $1
@endfn
@file rbe/src/rbe_struct.rs
@type struct RbeStruct
@type enum RbeAlgorithm
impl KeySet {
    #[verifier::external_body] pub fn vx_of(k: [Key; 1]) -> (r: KeySet) ensures r@ == ISet::<Key>::empty().insert(k@[0]) { unimplemented!() }
}
/// cached symbols are the symbols of the expression; without the repeats flag every symbol occurs once
pub open spec fn rs_ok(s: RbeStruct) -> bool {
    (forall|k: Key| #[trigger] s.symbols@.contains(k) <==> syms(s.rbe, k)) && (!s.has_repeats ==> sorbe(s.rbe))
}
impl Clone for RbeStruct { #[verifier::external_body] fn clone(&self) -> (r: RbeStruct) ensures r == *self { unimplemented!() } }
pub open spec fn some_sym_upto(s: Seq<RbeStruct>, i: int, k: Key) -> bool { exists|j: int| 0 <= j < i && syms(#[trigger] s[j].rbe, k) }
@byval-iter values items
@remap-path HashSet::from KeySet::vx_of
@erase-method diagnose_failure derr()
@fn RbeStruct::extra_symbols r
    ensures forall|k: Key| #[trigger] r@.contains(k) <==> $1@.count(k) > 0 && !self.symbols@.contains(k)
@collect 0 KeySet insert
@loop 0
    invariant
        forall|j: int| 0 <= j < $c@.len() ==> #[trigger] $1@.count($c@[j].0) == $c@[j].1 && $c@[j].1 > 0,
        forall|k: Key| #[trigger] $acc@.contains(k) ==> $1@.count(k) > 0 && !self.symbols@.contains(k),
        forall|j: int| 0 <= j < $i && !self.symbols@.contains(#[trigger] $c@[j].0) ==> $acc@.contains($c@[j].0),
@endfn
@fn RbeStruct::match_bag_deriv r
    requires wf(self.rbe)
    ensures r is Ok <==> lang(self.rbe, restrict($1@, $2, syms_set(self.rbe)))
@endfn
pub open spec fn extras(b: MS, e: Rbe) -> bool { exists|k: Key| #[trigger] b.count(k) > 0 && !syms(e, k) }
pub proof fn lemma_mbi(e: Rbe, b: MS, open: bool)
    ensures
        !open && extras(b, e) ==> !lang(e, restrict(b, open, syms_set(e))),
        open || !extras(b, e) ==> restrict(b, open, syms_set(e)) == restr(b, e),
        forall|iv: Interval| #[trigger] iv_ok(e, b, iv) ==> (iv_has(iv, 1) <==> lang(e, restr(b, e))),
{
    lemma_restr(b, e); lemma_restrict(b, open, syms_set(e));
    if !open && extras(b, e) && lang(e, restrict(b, open, syms_set(e))) {
        let k = choose|k: Key| #[trigger] b.count(k) > 0 && !syms(e, k);
        lemma_support(e, b, k);
    }
    if open || !extras(b, e) { assert(restrict(b, open, syms_set(e)) =~= restr(b, e)); }
    lemma_pow_one(e, restr(b, e));
    assert forall|iv: Interval| #[trigger] iv_ok(e, b, iv) implies (iv_has(iv, 1) <==> lang(e, restr(b, e))) by { assert(iv_has(iv, 1) <==> lang_pow(e, 1, restr(b, e))); }
}
@fn RbeStruct::match_bag_interval r
    requires wf(self.rbe), nofail(self.rbe), rs_ok(*self), $1@.len() <= usize::MAX
    ensures r is Ok <==> lang(self.rbe, restrict($1@, $2, syms_set(self.rbe)))
@start
    proof { lemma_mbi(self.rbe, $1@, $2); }
@afterlet extra_symbols
    proof {
        if forall|k: Key| !extra_symbols@.contains(k) { assert(extra_symbols@ =~= ISet::<Key>::empty()); }
        else { let k = choose|k: Key| extra_symbols@.contains(k); assert($1@.count(k) > 0 && !syms(self.rbe, k)); }
        assert forall|k: Key| #[trigger] $1@.count(k) > 0 && !syms(self.rbe, k) implies extra_symbols@.contains(k) by {}
    }
@afterlet interval
    proof { assert(iv_ok(self.rbe, $1@, interval)); }
@endfn
@fn RbeStruct::match_bag r
    requires wf(self.rbe), nofail(self.rbe), rs_ok(*self), $1@.len() <= usize::MAX
    ensures r is Ok <==> lang(self.rbe, restrict($1@, $2, syms_set(self.rbe)))
@endfn
@fn RbeStruct::empty r
    ensures rs_ok(r), r.rbe == Rbe::Empty
@endfn
@fn RbeStruct::symbol r
    ensures rs_ok(r), r.rbe matches Rbe::Symbol { value, card } && value == $1 && card.min.value == $2 && card.max == $3
@endfn
pub open spec fn no_overlap(s: Seq<RbeStruct>, n: int) -> bool { forall|i: int, j: int, k: Key| 0 <= i < n && 0 <= j < n && i != j && #[trigger] syms(s[i].rbe, k) ==> !#[trigger] syms(s[j].rbe, k) }
pub proof fn lemma_take_contains(s: Seq<Key>, i: int)
    requires 0 <= i < s.len()
    ensures forall|k: Key| #[trigger] s.take(i + 1).contains(k) <==> s.take(i).contains(k) || k == s[i]
{ assert(s.take(i + 1) =~= s.take(i).push(s[i]));
  assert forall|k: Key| #[trigger] s.take(i + 1).contains(k) <==> s.take(i).contains(k) || k == s[i] by {
    if k == s[i] { assert(s.take(i + 1)[i] == k); }
    if s.take(i).contains(k) { let j = choose|j: int| #![trigger s.take(i)[j]] 0 <= j < i && s.take(i)[j] == k; assert(s.take(i + 1)[j] == k); }
    if s.take(i + 1).contains(k) { let j = choose|j: int| #![trigger s.take(i + 1)[j]] 0 <= j < i + 1 && s.take(i + 1)[j] == k; if j < i { assert(s.take(i)[j] == k); } }
  } }
@fn RbeStruct::has_symbol_overlap r
    requires forall|i: int| 0 <= i < $1@.len() ==> rs_ok(#[trigger] $1@[i])
    ensures !r ==> forall|i: int, j: int, k: Key| 0 <= i < $1@.len() && 0 <= j < $1@.len() && i != j && #[trigger] syms($1@[i].rbe, k) ==> !#[trigger] syms($1@[j].rbe, k)
@loop 0
    invariant
        forall|i: int| 0 <= i < $1@.len() ==> rs_ok(#[trigger] $1@[i]),
        forall|k: Key| #[trigger] seen@.contains(k) <==> some_sym_upto($1@, $i as int, k), no_overlap($1@, $i as int)
@loop 1
    invariant
        0 < $i@0 <= $1@.len(), rs_ok($1@[$i@0 - 1]), forall|k: Key| $1@[$i@0 - 1].symbols@.contains(k) <==> #[trigger] $c@.contains(k),
        forall|k: Key| #[trigger] seen@.contains(k) <==> some_sym_upto($1@, $i@0 - 1, k) || $c@.take($i as int).contains(k), no_overlap($1@, $i@0 - 1),
        forall|k: Key| #[trigger] $c@.take($i as int).contains(k) ==> !some_sym_upto($1@, $i@0 - 1, k),
@loopbefore 1
    proof { assert($c@.take(0) =~= Seq::<Key>::empty()); }
@loopend 1
    proof { lemma_take_contains($c@, $i - 1); }
@loopafter 1
    proof {
        assert($c@.take($c@.len() as int) =~= $c@);
        assert forall|k: Key| #[trigger] seen@.contains(k) <==> some_sym_upto($1@, $i@0 as int, k) by { lemma_sym_upto($1@, $i@0 - 1, k); }
        assert(no_overlap($1@, $i@0 as int)) by {
            assert forall|i: int, j: int, k: Key| 0 <= i < $i@0 && 0 <= j < $i@0 && i != j && #[trigger] syms($1@[i].rbe, k) implies !#[trigger] syms($1@[j].rbe, k) by {
                assert($1@[$i@0 - 1].symbols@.contains(k) <==> $c@.contains(k));
                assert(syms($1@[i].rbe, k)); 
            }
        }
    }
@endfn
pub proof fn lemma_sym_upto(s: Seq<RbeStruct>, i: int, k: Key)
    requires 0 <= i < s.len()
    ensures some_sym_upto(s, i + 1, k) <==> some_sym_upto(s, i, k) || syms(s[i].rbe, k)
{ if syms(s[i].rbe, k) { assert(syms(s[i].rbe, k)); } }
@fn RbeStruct::and r
@argty 1 Vec<RbeStruct>
    requires forall|i: int| 0 <= i < $1@.len() ==> rs_ok(#[trigger] $1@[i])
    ensures rs_ok(r), r.rbe is And, r.rbe->And_values@.len() == $1@.len(), forall|i: int| 0 <= i < $1@.len() ==> r.rbe->And_values@[i] == #[trigger] $1@[i].rbe
@leaf
    proof {
        let e = vx_leaf.rbe;
        assert forall|k: Key| #[trigger] vx_leaf.symbols@.contains(k) <==> syms(e, k) by {
            if some_sym_upto($1@, $1@.len() as int, k) { let j = choose|j: int| 0 <= j < $1@.len() && syms(#[trigger] $1@[j].rbe, k); assert(syms(e->And_values@[j], k)); }
            if syms(e, k) { let j = choose|j: int| 0 <= j < e->And_values@.len() && syms(#[trigger] e->And_values@[j], k); assert(syms($1@[j].rbe, k)); }
        }
        if !vx_leaf.has_repeats { assert forall|j: int| 0 <= j < e->And_values@.len() implies sorbe(#[trigger] e->And_values@[j]) by { assert(rs_ok($1@[j]) && !$1@[j].has_repeats); } assert(disjoint(e->And_values@)); }
    }
@collect 1 KeySet insert
@loop 0
    invariant $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == $c@[j]
@afterlet items
    proof { assert forall|i: int| 0 <= i < items@.len() implies rs_ok(#[trigger] items@[i]) by { assert(rs_ok($1@[i])); } }
@loop 1
    invariant !$acc ==> forall|j: int| 0 <= j < $i ==> !(#[trigger] $c@[j]).has_repeats
@loopafter 1
    proof { if !$acc { assert forall|j: int| 0 <= j < $1@.len() implies !(#[trigger] $1@[j]).has_repeats by { assert(!$c@[j].has_repeats); } } }
@loop 2
    invariant forall|k: Key| #[trigger] $acc@.contains(k) <==> some_sym_upto($c@, $i as int, k), forall|j: int| 0 <= j < $c@.len() ==> rs_ok(#[trigger] $c@[j]),
@loopend 2
    proof { assert forall|k: Key| #[trigger] $acc@.contains(k) <==> some_sym_upto($c@, $i as int, k) by { lemma_sym_upto($c@, $i - 1, k); } }
@loop 3
    invariant
        0 < $i@2 <= $c@2@.len(), rs_ok($c@2@[$i@2 - 1]), forall|k: Key| $c@2@[$i@2 - 1].symbols@.contains(k) <==> #[trigger] $c@.contains(k),
        forall|k: Key| #[trigger] $acc@.contains(k) <==> some_sym_upto($c@2@, $i@2 - 1, k) || $c@.take($i as int).contains(k),
@loopend 3
    proof { lemma_take_contains($c@, $i - 1); }
@loopafter 3
    proof { assert($c@.take($c@.len() as int) =~= $c@); }
@loop 4
    invariant $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == $c@[j].rbe
@endfn
@fn RbeStruct::or r
@argty 1 Vec<RbeStruct>
    requires forall|i: int| 0 <= i < $1@.len() ==> rs_ok(#[trigger] $1@[i])
    ensures rs_ok(r), r.rbe is Or, r.rbe->Or_values@.len() == $1@.len(), forall|i: int| 0 <= i < $1@.len() ==> r.rbe->Or_values@[i] == #[trigger] $1@[i].rbe
@leaf
    proof {
        let e = vx_leaf.rbe;
        assert forall|k: Key| #[trigger] vx_leaf.symbols@.contains(k) <==> syms(e, k) by {
            if some_sym_upto($1@, $1@.len() as int, k) { let j = choose|j: int| 0 <= j < $1@.len() && syms(#[trigger] $1@[j].rbe, k); assert(syms(e->Or_values@[j], k)); }
            if syms(e, k) { let j = choose|j: int| 0 <= j < e->Or_values@.len() && syms(#[trigger] e->Or_values@[j], k); assert(syms($1@[j].rbe, k)); }
        }
        if !vx_leaf.has_repeats { assert forall|j: int| 0 <= j < e->Or_values@.len() implies sorbe(#[trigger] e->Or_values@[j]) by { assert(rs_ok($1@[j]) && !$1@[j].has_repeats); } assert(disjoint(e->Or_values@)); }
    }
@collect 1 KeySet insert
@loop 0
    invariant $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == $c@[j]
@afterlet items
    proof { assert forall|i: int| 0 <= i < items@.len() implies rs_ok(#[trigger] items@[i]) by { assert(rs_ok($1@[i])); } }
@loop 1
    invariant !$acc ==> forall|j: int| 0 <= j < $i ==> !(#[trigger] $c@[j]).has_repeats
@loopafter 1
    proof { if !$acc { assert forall|j: int| 0 <= j < $1@.len() implies !(#[trigger] $1@[j]).has_repeats by { assert(!$c@[j].has_repeats); } } }
@loop 2
    invariant forall|k: Key| #[trigger] $acc@.contains(k) <==> some_sym_upto($c@, $i as int, k), forall|j: int| 0 <= j < $c@.len() ==> rs_ok(#[trigger] $c@[j]),
@loopend 2
    proof { assert forall|k: Key| #[trigger] $acc@.contains(k) <==> some_sym_upto($c@, $i as int, k) by { lemma_sym_upto($c@, $i - 1, k); } }
@loop 3
    invariant
        0 < $i@2 <= $c@2@.len(), rs_ok($c@2@[$i@2 - 1]), forall|k: Key| $c@2@[$i@2 - 1].symbols@.contains(k) <==> #[trigger] $c@.contains(k),
        forall|k: Key| #[trigger] $acc@.contains(k) <==> some_sym_upto($c@2@, $i@2 - 1, k) || $c@.take($i as int).contains(k),
@loopend 3
    proof { lemma_take_contains($c@, $i - 1); }
@loopafter 3
    proof { assert($c@.take($c@.len() as int) =~= $c@); }
@loop 4
    invariant $acc@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == $c@[j].rbe
@endfn
@fn RbeStruct::opt r
    requires rs_ok($1)
    ensures rs_ok(r), r.rbe is Or, r.rbe->Or_values@ =~= seq![$1.rbe, Rbe::Empty]
@leaf
    proof {
        let vx_s = vx_leaf.rbe->Or_values@;
        assert(vx_s =~= seq![$1.rbe, Rbe::Empty]);
        assert forall|k: Key| #[trigger] syms(vx_leaf.rbe, k) <==> syms($1.rbe, k) by { assert(!syms(vx_s[1], k)); if syms($1.rbe, k) { assert(syms(vx_s[0], k)); } }
        if sorbe($1.rbe) { assert(sorbe(vx_s[0]) && sorbe(vx_s[1])); }
    }
@endfn
@fn RbeStruct::plus r
    requires rs_ok($1)
    ensures rs_ok(r), r.rbe == (Rbe::Plus { value: Box::new($1.rbe) })
@endfn
@fn RbeStruct::star r
    requires rs_ok($1)
    ensures rs_ok(r), r.rbe == (Rbe::Star { value: Box::new($1.rbe) })
@endfn
@fn RbeStruct::repeat r
    requires rs_ok($1)
    ensures rs_ok(r), r.rbe is Repeat, rep_value(r.rbe) == $1.rbe, rep_card(r.rbe).min.value == $2, rep_card(r.rbe).max == $3
@endfn
/// same language, same symbols, still well formed
pub open spec fn eqv(a: Rbe, b: Rbe) -> bool {
    (forall|m: MS| #[trigger] lang(a, m) <==> lang(b, m)) && (forall|k: Key| #[trigger] syms(a, k) <==> syms(b, k)) && nofail(b) && (wf(a) ==> wf(b))
}
pub proof fn lemma_eqv_pow(a: Rbe, b: Rbe, n: nat, m: MS)
    requires eqv(a, b)
    ensures lang_pow(a, n, m) <==> lang_pow(b, n, m)
    decreases n
{
    if n > 0 {
        if lang_pow(a, n, m) {
            let (x, y) = choose|x: MS, y: MS| #[trigger] split(m, x, y) && lang(a, x) && lang_pow(a, (n - 1) as nat, y);
            lemma_eqv_pow(a, b, (n - 1) as nat, y);
        }
        if lang_pow(b, n, m) {
            let (x, y) = choose|x: MS, y: MS| #[trigger] split(m, x, y) && lang(b, x) && lang_pow(b, (n - 1) as nat, y);
            assert(lang(a, x));
            lemma_eqv_pow(a, b, (n - 1) as nat, y);
        }
    }
}
pub open spec fn eqv_all(a: Seq<Rbe>, b: Seq<Rbe>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eqv(#[trigger] a[i], b[i]) }
pub proof fn lemma_eqv_and(a: Vec<Rbe>, b: Vec<Rbe>, i: nat, m: MS)
    requires eqv_all(a@, b@)
    ensures lang_and(a, i, m) <==> lang_and(b, i, m)
    decreases a@.len() - i
{
    if i < a@.len() {
        assert(eqv(a@[i as int], b@[i as int]));
        if lang_and(a, i, m) {
            let (x, y) = choose|x: MS, y: MS| #[trigger] split(m, x, y) && lang(a@[i as int], x) && lang_and(a, i + 1, y);
            lemma_eqv_and(a, b, i + 1, y);
        }
        if lang_and(b, i, m) {
            let (x, y) = choose|x: MS, y: MS| #[trigger] split(m, x, y) && lang(b@[i as int], x) && lang_and(b, i + 1, y);
            assert(lang(a@[i as int], x));
            lemma_eqv_and(a, b, i + 1, y);
        }
    }
}
pub open spec fn kids_eqv(a: Rbe, b: Rbe) -> bool {
    match (a, b) {
        (Rbe::And { values: v }, Rbe::And { values: w }) => eqv_all(v@, w@),
        (Rbe::Or { values: v }, Rbe::Or { values: w }) => eqv_all(v@, w@),
        (Rbe::Star { value: v }, Rbe::Star { value: w }) => eqv(*v, *w),
        (Rbe::Plus { value: v }, Rbe::Plus { value: w }) => eqv(*v, *w),
        (Rbe::Repeat { value: v, card: c }, Rbe::Repeat { value: w, card: d }) => eqv(*v, *w) && c.min.value == d.min.value && c.max == d.max,
        _ => false,
    }
}
pub proof fn lemma_kids_eqv(a: Rbe, b: Rbe)
    requires kids_eqv(a, b)
    ensures eqv(a, b)
{
    assert forall|m: MS| #[trigger] lang(a, m) <==> lang(b, m) by {
        match (a, b) {
            (Rbe::And { values: v }, Rbe::And { values: w }) => { lemma_eqv_and(v, w, 0, m); assert(lang(a, m) <==> lang(b, m)); }
            (Rbe::Or { values: v }, Rbe::Or { values: w }) => {
                if lang(a, m) { let i = choose|i: int| 0 <= i < v@.len() && lang(#[trigger] v@[i], m); assert(eqv(v@[i], w@[i])); assert(lang(w@[i], m)); }
                if lang(b, m) { let i = choose|i: int| 0 <= i < w@.len() && lang(#[trigger] w@[i], m); assert(eqv(v@[i], w@[i])); assert(lang(v@[i], m)); }
            }
            (Rbe::Star { value: v }, Rbe::Star { value: w }) => { lemma_eqv_pows(*v, *w); 
                if lang(a, m) { let n = choose|n: nat| #[trigger] tn(n) && lang_pow(*v, n, m); assert(lang_pow(*w, n, m)); assert(tn(n)); }
                if lang(b, m) { let n = choose|n: nat| #[trigger] tn(n) && lang_pow(*w, n, m); assert(lang_pow(*v, n, m)); assert(tn(n)); }
            }
            (Rbe::Plus { value: v }, Rbe::Plus { value: w }) => { lemma_eqv_pows(*v, *w); 
                if lang(a, m) { let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && lang_pow(*v, n, m); assert(lang_pow(*w, n, m)); assert(tn(n)); }
                if lang(b, m) { let n = choose|n: nat| n >= 1 && #[trigger] tn(n) && lang_pow(*w, n, m); assert(lang_pow(*v, n, m)); assert(tn(n)); }
            }
            (Rbe::Repeat { value: v, card: c }, Rbe::Repeat { value: w, card: d }) => { lemma_eqv_pows(*v, *w); 
                if lang(a, m) { let n = choose|n: nat| card_has(c, n as int) && #[trigger] tn(n) && lang_pow(*v, n, m); assert(lang_pow(*w, n, m)); assert(tn(n)); }
                if lang(b, m) { let n = choose|n: nat| card_has(c, n as int) && #[trigger] tn(n) && lang_pow(*w, n, m); assert(lang_pow(*v, n, m)); assert(tn(n)); }
            }
            _ => {}
        }
    }
    assert forall|k: Key| #[trigger] syms(a, k) <==> syms(b, k) by {
        match (a, b) {
            (Rbe::And { values: v }, Rbe::And { values: w }) => {
                if syms(a, k) { let i = choose|i: int| 0 <= i < v@.len() && syms(#[trigger] v@[i], k); assert(eqv(v@[i], w@[i])); assert(syms(w@[i], k)); }
                if syms(b, k) { let i = choose|i: int| 0 <= i < w@.len() && syms(#[trigger] w@[i], k); assert(eqv(v@[i], w@[i])); assert(syms(v@[i], k)); }
            }
            (Rbe::Or { values: v }, Rbe::Or { values: w }) => {
                if syms(a, k) { let i = choose|i: int| 0 <= i < v@.len() && syms(#[trigger] v@[i], k); assert(eqv(v@[i], w@[i])); assert(syms(w@[i], k)); }
                if syms(b, k) { let i = choose|i: int| 0 <= i < w@.len() && syms(#[trigger] w@[i], k); assert(eqv(v@[i], w@[i])); assert(syms(v@[i], k)); }
            }
            _ => { assert(syms(rep_value(a), k) <==> syms(rep_value(b), k)); }
        }
    }
    match (a, b) {
        (Rbe::And { values: v }, Rbe::And { values: w }) => {
            assert forall|i: int| 0 <= i < w@.len() implies nofail(#[trigger] w@[i]) && (wf(a) ==> wf(w@[i])) by { assert(eqv(v@[i], w@[i])); }
        }
        (Rbe::Or { values: v }, Rbe::Or { values: w }) => {
            assert forall|i: int| 0 <= i < w@.len() implies nofail(#[trigger] w@[i]) && (wf(a) ==> wf(w@[i])) by { assert(eqv(v@[i], w@[i])); }
        }
        _ => {}
    }
}
pub proof fn lemma_eqv_pows(a: Rbe, b: Rbe)
    requires eqv(a, b)
    ensures forall|n: nat, m: MS| #[trigger] lang_pow(a, n, m) <==> lang_pow(b, n, m)
{ assert forall|n: nat, m: MS| #[trigger] lang_pow(a, n, m) <==> lang_pow(b, n, m) by { lemma_eqv_pow(a, b, n, m); } }
pub proof fn lemma_kids_eqv_all(a: Rbe)
    ensures forall|b: Rbe| #[trigger] kids_eqv(a, b) ==> eqv(a, b)
{ assert forall|b: Rbe| #[trigger] kids_eqv(a, b) implies eqv(a, b) by { lemma_kids_eqv(a, b); } }
pub proof fn lemma_eqv_refl(a: Rbe)
    requires nofail(a)
    ensures eqv(a, a)
{}
@fn RbeStruct@From::from r
    ensures rs_ok(r), nofail($1) ==> eqv($1, r.rbe)
    decreases $1
@start
    proof { lemma_kids_eqv_all($1); }
@loop 0
    invariant $1 is And, $1->And_values == values, forall|j: int| 0 <= j < $i ==> rs_ok(#[trigger] $acc@[j]), nofail($1) ==> forall|j: int| 0 <= j < $i ==> eqv(#[trigger] values@[j], $acc@[j].rbe), $acc@.len() == $i
@loop 1
    invariant $1 is Or, $1->Or_values == values, forall|j: int| 0 <= j < $i ==> rs_ok(#[trigger] $acc@[j]), nofail($1) ==> forall|j: int| 0 <= j < $i ==> eqv(#[trigger] values@[j], $acc@[j].rbe), $acc@.len() == $i
@leaf
    proof { if nofail($1) { if $1 is Symbol || $1 is Empty { assert(eqv($1, vx_leaf.rbe)); } else { assert(kids_eqv($1, vx_leaf.rbe)); } } }
@endfn
