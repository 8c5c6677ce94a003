@file shacl/src/ir/components/and.rs
@type struct And
@fn And::shapes r
    ensures *r == self.shapes,
@endfn
@file shacl/src/ir/components/or.rs
@type struct Or
@fn Or::shapes r
    ensures *r == self.shapes,
@endfn
@file shacl/src/ir/components/xone.rs
@type struct Xone
@fn Xone::shapes r
    ensures *r == self.shapes,
@endfn
@file shacl/src/ir/components/not.rs
@type struct Not
@fn Not::shape r
    ensures *r == self.shape,
@endfn
@file shacl/src/ir/components/node.rs
@type struct Node
@fn Node::shape r
    ensures *r == self.shape,
@endfn
pub open spec fn all_conf(g: IRSchema, s: Seq<ShapeLabelIdx>, n: Term) -> bool { forall|k: int| 0 <= k < s.len() ==> conf(g, #[trigger] s[k], n) }
pub open spec fn any_conf(g: IRSchema, s: Seq<ShapeLabelIdx>, n: Term) -> bool { exists|k: int| 0 <= k < s.len() && conf(g, #[trigger] s[k], n) }
pub open spec fn n_conf(g: IRSchema, s: Seq<ShapeLabelIdx>, k: int, n: Term) -> int
    decreases k
{ if k <= 0 { 0 } else { n_conf(g, s, k - 1, n) + if conf(g, s[k - 1], n) { 1int } else { 0 } } }


@file shacl/src/validator/constraints/core/logical/and.rs
@fn And@Validator::validate r
    ensures
        r matches Ok(v) ==> v@ == exp($5@, $5@.len() as int, 0, |f: Term, n: Term| !all_conf(*$8, self.shapes@, n), obj_of_iri(iri_of(*$1)), *$2, $7),
@argty 4 &mut EngineX
@rename validate_and
@start
    let ghost vx_bad = |f: Term, n: Term| !all_conf(*$8, self.shapes@, n);
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant
        validation_results@ == exp($c@, $i as int, 0, vx_bad, vx_co, *$2, $7), $c@ == $5@, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 1
    invariant
        validation_results@ == exp($c@0@, $i@0 - 1, $i as int, vx_bad, vx_co, *$2, $7), $c@ == $c@0@[$i@0 - 1].1@,
        1 <= $i@0 <= $c@0@.len(), *fnode == $c@0@[$i@0 - 1].0, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 2
    invariant
        conforms ==> forall|k: int| 0 <= k < $i ==> conf(*$8, #[trigger] self.shapes@[k], *node),
        !conforms ==> !all_conf(*$8, self.shapes@, *node),
        focus_nodes@ == seq![*node], $i <= $c@.len(), $c@ == self.shapes@,
    decreases $c@.len() - $i
@attrs #[verifier::loop_isolation(false)]
@endfn

@file shacl/src/validator/constraints/core/logical/or.rs
@fn Or@Validator::validate r
    ensures
        r matches Ok(v) ==> v@ == exp($5@, $5@.len() as int, 0, |f: Term, n: Term| !any_conf(*$8, self.shapes@, n), obj_of_iri(iri_of(*$1)), *$2, $7),
@argty 4 &mut EngineX
@rename validate_or
@start
    let ghost vx_bad = |f: Term, n: Term| !any_conf(*$8, self.shapes@, n);
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant
        validation_results@ == exp($c@, $i as int, 0, vx_bad, vx_co, *$2, $7), $c@ == $5@, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 1
    invariant
        validation_results@ == exp($c@0@, $i@0 - 1, $i as int, vx_bad, vx_co, *$2, $7), $c@ == $c@0@[$i@0 - 1].1@,
        1 <= $i@0 <= $c@0@.len(), *fnode == $c@0@[$i@0 - 1].0, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 2
    invariant
        !conforms ==> forall|k: int| 0 <= k < $i ==> !conf(*$8, #[trigger] self.shapes@[k], *node),
        conforms ==> any_conf(*$8, self.shapes@, *node),
        focus_nodes@ == seq![*node], $i <= $c@.len(), $c@ == self.shapes@,
    decreases $c@.len() - $i
@attrs #[verifier::loop_isolation(false)]
@endfn

@file shacl/src/validator/constraints/core/logical/xone.rs
@fn Xone@Validator::validate r
    requires self.shapes@.len() <= i32::MAX,
    ensures
        r matches Ok(v) ==> v@ == exp($5@, $5@.len() as int, 0, |f: Term, n: Term| n_conf(*$8, self.shapes@, self.shapes@.len() as int, n) != 1, obj_of_iri(iri_of(*$1)), *$2, $7),
@argty 4 &mut EngineX
@rename validate_xone
@start
    let ghost vx_bad = |f: Term, n: Term| n_conf(*$8, self.shapes@, self.shapes@.len() as int, n) != 1;
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant
        validation_results@ == exp($c@, $i as int, 0, vx_bad, vx_co, *$2, $7), $c@ == $5@, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 1
    invariant
        validation_results@ == exp($c@0@, $i@0 - 1, $i as int, vx_bad, vx_co, *$2, $7), $c@ == $c@0@[$i@0 - 1].1@,
        1 <= $i@0 <= $c@0@.len(), *fnode == $c@0@[$i@0 - 1].0, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 2
    invariant
        conforming_shapes == n_conf(*$8, self.shapes@, $i as int, *node), 0 <= conforming_shapes <= $i,
        focus_nodes@ == seq![*node], $i <= $c@.len(), $c@ == self.shapes@,
    decreases $c@.len() - $i
@attrs #[verifier::loop_isolation(false)]
@endfn

@file shacl/src/validator/constraints/core/logical/not.rs
@fn Not@Validator::validate r
    ensures
        r matches Ok(v) ==> v@ == exp($5@, $5@.len() as int, 0, |f: Term, n: Term| conf(*$8, self.shape, n), obj_of_iri(iri_of(*$1)), *$2, $7),
@argty 4 &mut EngineX
@rename validate_not
@start
    let ghost vx_bad = |f: Term, n: Term| conf(*$8, self.shape, n);
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant
        validation_results@ == exp($c@, $i as int, 0, vx_bad, vx_co, *$2, $7), $c@ == $5@, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 1
    invariant
        validation_results@ == exp($c@0@, $i@0 - 1, $i as int, vx_bad, vx_co, *$2, $7), $c@ == $c@0@[$i@0 - 1].1@,
        1 <= $i@0 <= $c@0@.len(), *fnode == $c@0@[$i@0 - 1].0, $i <= $c@.len(),
    decreases $c@.len() - $i
@attrs #[verifier::loop_isolation(false)]
@endfn

@file shacl/src/validator/constraints/core/shape_based/node.rs
@fn Node@Validator::validate r
    ensures
        r matches Ok(v) ==> v@ == exp($5@, $5@.len() as int, 0, |f: Term, n: Term| !conf(*$8, self.shape, n), obj_of_iri(iri_of(*$1)), *$2, $7),
@argty 4 &mut EngineX
@rename validate_node
@start
    let ghost vx_bad = |f: Term, n: Term| !conf(*$8, self.shape, n);
    let ghost vx_co = obj_of_iri(iri_of(*$1));
@loop 0
    invariant
        validation_results@ == exp($c@, $i as int, 0, vx_bad, vx_co, *$2, $7), $c@ == $5@, $i <= $c@.len(),
    decreases $c@.len() - $i
@loop 1
    invariant
        validation_results@ == exp($c@0@, $i@0 - 1, $i as int, vx_bad, vx_co, *$2, $7), $c@ == $c@0@[$i@0 - 1].1@,
        1 <= $i@0 <= $c@0@.len(), *fnode == $c@0@[$i@0 - 1].0, $i <= $c@.len(),
    decreases $c@.len() - $i
@optmap
@attrs #[verifier::loop_isolation(false)]
@endfn
