// ---- cardinalities: abstract meaning ----
@file rbe/src/max.rs
@type enum Max derive=PartialEq,Eq,Structural
@file rbe/src/min.rs
@type struct Min derive=PartialEq,Eq,Structural,Copy,Clone
@file rbe/src/cardinality.rs
@type struct Cardinality derive=PartialEq,Eq,Structural
@file rbe/src/interval.rs
@type struct Interval derive=PartialEq,Eq,Structural

impl Clone for Max { fn clone(&self) -> (r: Max) ensures r == *self { match self { Max::Unbounded => Max::Unbounded, Max::IntMax(n) => Max::IntMax(*n) } } }
impl Clone for Cardinality { fn clone(&self) -> (r: Cardinality) ensures r == *self { Cardinality { min: self.min, max: self.max.clone() } } }
impl Clone for Interval { fn clone(&self) -> (r: Interval) ensures r == *self { Interval { n: self.n.clone(), m: self.m.clone() } } }

/// `n` is at most the bound `m`
pub open spec fn le_max(n: int, m: Max) -> bool { match m { Max::Unbounded => true, Max::IntMax(k) => n <= k } }
/// `n` is an allowed number of occurrences
pub open spec fn card_has(c: Cardinality, n: int) -> bool { c.min.value <= n && le_max(n, c.max) }
/// `v` lies in the interval
pub open spec fn iv_has(i: Interval, v: int) -> bool { (match i.n { Max::Unbounded => false, Max::IntMax(n) => n <= v }) && le_max(v, i.m) }

pub open spec fn iv_nonempty(r: Interval) -> bool { r.n is IntMax && le_max(r.n->IntMax_0 as int, r.m) }
pub proof fn lemma_nonempty(r: Interval)
    ensures iv_nonempty(r) <==> exists|v: int| v >= 0 && #[trigger] iv_has(r, v)
{ if iv_nonempty(r) { assert(iv_has(r, r.n->IntMax_0 as int)); } }

@file rbe/src/max.rs
@fn Max::minus r
    ensures
        (*self is Unbounded) == (r is Unbounded),
        forall|k: int| #![trigger le_max(k, r)] k > 0 ==> (le_max(k, r) <==> le_max(k + $1, *self)),
        le_max(0, r),
        self matches Max::IntMax(m) ==> r == Max::IntMax(if m >= $1 { (m - $1) as usize } else { 0 }),
@endfn
@fn Max::greater_or_equal r
    ensures r == le_max($1 as int, *self),
@endfn
@fn Max::greater_than r
    ensures r == exists|k: int| le_max(k, *self) && !#[trigger] le_max(k, *$1),
@start
    proof {
        if let Max::IntMax(b) = *$1 { assert(!le_max(b + 1, *$1)); if let Max::IntMax(a) = *self { assert(le_max(a as int, *self)); assert(a > b ==> !le_max(a as int, *$1)); } }
    }
@endfn
@fn Max::max r
    ensures forall|k: int| #[trigger] le_max(k, r) <==> le_max(k, *self) || le_max(k, *$1),
        r == *self || r == *$1,
        (r is Unbounded) == (*self is Unbounded || *$1 is Unbounded),
        r matches Max::IntMax(s) ==> self->IntMax_0 <= s && $1->IntMax_0 <= s,
@endfn
@fn Max::min r
    ensures forall|k: int| #[trigger] le_max(k, r) <==> le_max(k, *self) && le_max(k, *$1),
        r == *self || r == *$1,
@endfn
@fn Max::plus r
    requires (self matches Max::IntMax(a) && *$1 matches Max::IntMax(b)) ==> self->IntMax_0 + $1->IntMax_0 <= usize::MAX,
    ensures
        (r is Unbounded) == (*self is Unbounded || *$1 is Unbounded),
        r matches Max::IntMax(s) ==> s == self->IntMax_0 + $1->IntMax_0,
@endfn
// least t such that $1 <= t * self  (Unbounded when no t works)
@fn Max::div_up r
    ensures
        up_ok(r, *self, *$1 as int),
        r matches Max::IntMax(t) ==> forall|k: int| #![trigger iv_scale_ge(k, *self, *$1 as int)] k >= 0 ==> (k >= t <==> iv_scale_ge(k, *self, *$1 as int)),
        r is Unbounded ==> forall|k: int| #![trigger iv_scale_ge(k, *self, *$1 as int)] k >= 0 ==> !iv_scale_ge(k, *self, *$1 as int),
@start
    proof { lemma_div_up(*self, *$1 as int); }
@endfn
// greatest t such that t * self <= $1 (Unbounded when every t works); only used with finite self
@fn Max::div_down r
    ensures
        *self is IntMax ==> down_ok(r, *self, *$1 as int),
        *self is IntMax ==> forall|k: int| #![trigger iv_scale_le(k, *self, *$1 as int)] k >= 0 ==> (le_max(k, r) <==> iv_scale_le(k, *self, *$1 as int)),
        *self is Unbounded ==> r == Max::IntMax(if *$1 == 0 { 0 } else { 1 }),
@start
    proof { lemma_div_down(*self, *$1 as int); }
@endfn
/// `t` is the least k with v <= k * m
pub open spec fn up_ok(t: Max, m: Max, v: int) -> bool { forall|k: int| #![trigger iv_scale_ge(k, m, v)] k >= 0 ==> (t is IntMax && k >= t->IntMax_0 <==> iv_scale_ge(k, m, v)) }
pub open spec fn down_ok(t: Max, m: Max, v: int) -> bool { forall|k: int| #![trigger iv_scale_le(k, m, v)] k >= 0 ==> (le_max(k, t) <==> iv_scale_le(k, m, v)) }
/// `v <= k * m` with `0 * Unbounded = 0`
pub open spec fn iv_scale_ge(k: int, m: Max, v: int) -> bool { match m { Max::Unbounded => v == 0 || k >= 1, Max::IntMax(m) => v <= k * m } }
pub open spec fn iv_scale_le(k: int, m: Max, v: int) -> bool { match m { Max::Unbounded => k == 0, Max::IntMax(m) => k * m <= v } }
pub proof fn lemma_div_up(m: Max, v: int)
    requires v >= 0
    ensures
        v == 0 ==> forall|k: int| k >= 0 ==> #[trigger] iv_scale_ge(k, m, v),
        m is IntMax && m->IntMax_0 > 0 ==> forall|k: int| k >= 0 ==> (#[trigger] iv_scale_ge(k, m, v) <==> k >= (v + m->IntMax_0 - 1) / (m->IntMax_0 as int)),
        m is IntMax && m->IntMax_0 == 0 && v > 0 ==> forall|k: int| k >= 0 ==> !#[trigger] iv_scale_ge(k, m, v),
{
    if let Max::IntMax(mm) = m {
        assert forall|k: int| k >= 0 && v == 0 implies #[trigger] iv_scale_ge(k, m, v) by { assert(0 <= k * mm) by(nonlinear_arith) requires k >= 0, mm >= 0; }
        if mm > 0 {
            let d = mm as int; let q = (v + d - 1) / d;
            assert forall|k: int| k >= 0 implies (#[trigger] iv_scale_ge(k, m, v) <==> k >= q) by {
                assert((v + d - 1) == d * q + (v + d - 1) % d) by(nonlinear_arith) requires d > 0, q == (v + d - 1) / d;
                assert(0 <= (v + d - 1) % d < d) by(nonlinear_arith) requires d > 0;
                if k >= q { assert(k * d >= q * d) by(nonlinear_arith) requires k >= q, d > 0; assert(q * d == d * q) by(nonlinear_arith); }
                else { assert(k * d <= (q - 1) * d) by(nonlinear_arith) requires k <= q - 1, d > 0; assert((q - 1) * d == d * q - d) by(nonlinear_arith); }
            }
        } else { assert forall|k: int| k >= 0 && v > 0 implies !#[trigger] iv_scale_ge(k, m, v) by { assert(k * 0 == 0) by(nonlinear_arith); } }
    }
}
pub proof fn lemma_div_down(m: Max, v: int)
    requires v >= 0
    ensures
        m is IntMax && m->IntMax_0 == 0 ==> forall|k: int| k >= 0 ==> #[trigger] iv_scale_le(k, m, v),
        m is IntMax && m->IntMax_0 > 0 ==> forall|k: int| k >= 0 ==> (#[trigger] iv_scale_le(k, m, v) <==> k <= v / (m->IntMax_0 as int)),
{
    if let Max::IntMax(mm) = m {
        if mm > 0 {
            let d = mm as int; let q = v / d;
            assert forall|k: int| k >= 0 implies (#[trigger] iv_scale_le(k, m, v) <==> k <= q) by {
                assert(v == d * q + v % d) by(nonlinear_arith) requires d > 0, q == v / d;
                assert(0 <= v % d < d) by(nonlinear_arith) requires d > 0;
                if k <= q { assert(k * d <= d * q) by(nonlinear_arith) requires k <= q, d > 0; }
                else { assert(k * d >= (q + 1) * d) by(nonlinear_arith) requires k >= q + 1, d > 0; assert((q + 1) * d == d * q + d) by(nonlinear_arith); }
            }
        } else { assert forall|k: int| k >= 0 implies #[trigger] iv_scale_le(k, m, v) by { assert(k * 0 == 0) by(nonlinear_arith); } }
    }
}

@file rbe/src/min.rs
@fn Min::is_0 r
    ensures r == (self.value == 0),
@endfn
@file rbe/src/cardinality.rs
@fn Cardinality::from r
    ensures r.min == $1, r.max == $2,
@endfn
@fn Cardinality::nullable r
    ensures r == (self.min.value == 0),
@endfn
@fn Cardinality::is_0_0 r
    ensures r == (self.min.value == 0 && self.max == Max::IntMax(0)),
@endfn
@fn Cardinality::is_1_1 r
    ensures r == (self.min.value == 1 && self.max == Max::IntMax(1)),
@endfn
@fn Cardinality::is_star r
    ensures r == (self.min.value == 0 && self.max is Unbounded),
@endfn
@fn Cardinality::is_plus r
    ensures r == (self.min.value == 1 && self.max is Unbounded),
@endfn
@fn Cardinality::contains r
    ensures r == card_has(*self, $1 as int),
@endfn
@fn Cardinality::minus r
    ensures
        r.min.value == (if self.min.value >= $1 { self.min.value - $1 } else { 0 }),
        (r.max is Unbounded) == (self.max is Unbounded),
        self.max matches Max::IntMax(m) ==> r.max == Max::IntMax(if m >= $1 { (m - $1) as usize } else { 0 }),
        // removing n allowed occurrences leaves exactly the remaining ones
        le_max($1 as int, self.max) ==> forall|k: int| k >= 0 ==> (#[trigger] card_has(r, k) <==> card_has(*self, k + $1)),
@endfn
@file rbe/src/interval.rs
@fn Interval::new r
    ensures r.n == $1, r.m == $2,
@endfn
@fn Interval::fail r
    ensures forall|v: int| !#[trigger] iv_has(r, v), !iv_nonempty(r),
@start
    proof { lemma_nonempty(Interval { n: Max::Unbounded, m: Max::IntMax(0) }); }
@endfn
@fn Interval::zero_any r
    ensures forall|v: int| v >= 0 ==> #[trigger] iv_has(r, v), r.n == Max::IntMax(0), r.m is Unbounded,
@endfn
@fn Interval::zero_zero r
    ensures forall|v: int| v >= 0 ==> (#[trigger] iv_has(r, v) <==> v == 0), r.n == Max::IntMax(0), r.m == Max::IntMax(0),
@endfn
@fn Interval::one_any r
    ensures forall|v: int| v >= 0 ==> (#[trigger] iv_has(r, v) <==> v >= 1), r.n == Max::IntMax(1), r.m is Unbounded,
@endfn
@fn Interval::is_empty r
    ensures r == (forall|v: int| v >= 0 ==> !#[trigger] iv_has(*self, v)), r == !iv_nonempty(*self),
@start
    proof { if let Max::IntMax(a) = self.n { assert(iv_has(*self, a as int) <==> le_max(a as int, self.m));
        if let Max::IntMax(b) = self.m { if a > b { assert(le_max(a as int, self.n)); } else { assert(forall|k: int| le_max(k, self.n) ==> le_max(k, self.m)); } } else { assert(forall|k: int| le_max(k, self.m)); } } }
@endfn
@fn Interval::contains r
    ensures r == iv_has(*self, $1 as int),
@endfn
@fn Interval::intersection r
    ensures forall|v: int| v >= 0 ==> (#[trigger] iv_has(r, v) <==> iv_has(*self, v) && iv_has(*$1, v)),
@start
    proof { }
@endfn
@fn Interval::addition r
    requires
        (self.n is IntMax && $1.n is IntMax) ==> self.n->IntMax_0 + $1.n->IntMax_0 <= usize::MAX,
        (self.m is IntMax && $1.m is IntMax) ==> self.m->IntMax_0 + $1.m->IntMax_0 <= usize::MAX,
    ensures
        iv_nonempty(*self) && iv_nonempty(*$1) ==>
            r.n is IntMax && r.n->IntMax_0 == self.n->IntMax_0 + $1.n->IntMax_0
            && (r.m is Unbounded <==> self.m is Unbounded || $1.m is Unbounded)
            && (r.m is IntMax ==> r.m->IntMax_0 == self.m->IntMax_0 + $1.m->IntMax_0),
@endfn
