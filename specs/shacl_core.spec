@include shacl_base.spec
#[verifier::external_body] pub struct IRShape { x: u64 }
/// the validation result of a shape for a focus node
pub open spec fn vresult(f: Term, comp: Object, sh: IRShape, path: Option<&SHACLPath>, value: Option<Object>) -> ValidationResult {
    ValidationResult { focus_node: obj_of(f), constraint_component: comp, severity: sev_of(sh), path: opt_path(path), value, source: Some(id_of(sh)) }
}

// ---- shapes: conformance of a node is what validating it with the shape says (induction hypothesis) ----
pub uninterp spec fn id_of(s: IRShape) -> Object;
pub uninterp spec fn sev_of(s: IRShape) -> Severity;
pub uninterp spec fn shape_at(g: IRSchema, i: ShapeLabelIdx) -> IRShape;
pub uninterp spec fn sh_conforms(g: IRSchema, s: IRShape, n: Term) -> bool;
pub open spec fn conf(g: IRSchema, i: ShapeLabelIdx, n: Term) -> bool { sh_conforms(g, shape_at(g, i), n) }
impl IRSchema {
    #[verifier::external_body] pub fn get_shape_from_idx_e(&self, i: &ShapeLabelIdx) -> (r: Result<&IRShape, ValidationError>)
        ensures r matches Ok(s) ==> *s == shape_at(*self, *i) { unimplemented!() }
}
impl IRShape {
    #[verifier::external_body] pub fn id(&self) -> (r: &Object) ensures *r == id_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn severity(&self) -> (r: &Severity) ensures *r == sev_of(*self) { unimplemented!() }
    /// validating one node reports nothing exactly when the node conforms
    #[verifier::external_body] pub fn validate(&self, store: &Store, engine: &mut EngineX, targets: Option<&FocusNodes>, src: Option<&IRShape>, g: &IRSchema) -> (r: Result<Vec<ValidationResult>, ValidationError>)
        ensures targets matches Some(t) ==> t@.len() == 1 ==> (sh_conforms(*g, *self, t@[0]) <==> (r is Ok && r->Ok_0@.len() == 0))
    { unimplemented!() }
}
pub uninterp spec fn cached(e: EngineX, o: Object, i: ShapeLabelIdx) -> bool;
impl EngineX {
    #[verifier::external_body] pub fn has_validated(&self, o: &Object, i: ShapeLabelIdx) -> (r: bool) ensures r == cached(*self, *o, i) { unimplemented!() }
    /// results are only cached for a node by a validation of that node with that shape (H18)
    #[verifier::external_body] pub fn get_cached_results(&self, o: &Object, i: ShapeLabelIdx) -> (r: Option<Vec<ValidationResult>>)
        ensures r is Some <==> cached(*self, *o, i), r matches Some(v) ==> forall|g: IRSchema, t: Term| obj_of(t) == *o ==> (#[trigger] conf(g, i, t) <==> v@.len() == 0) { unimplemented!() }
}

/// results for the value nodes before position (i, j): one for every value node for which `bad` holds
pub open spec fn exp(vn: Seq<(Term, FocusNodes)>, i: int, j: int, bad: spec_fn(Term, Term) -> bool, comp: Object, sh: IRShape, path: Option<&SHACLPath>) -> Seq<ValidationResult>
    decreases i, j
{
    if i < 0 || (i == 0 && j <= 0) { Seq::empty() }
    else if j <= 0 { exp(vn, i - 1, vn[i - 1].1@.len() as int, bad, comp, sh, path) }
    else {
        let e = exp(vn, i, j - 1, bad, comp, sh, path);
        let v = vn[i].1@[j - 1];
        if bad(vn[i].0, v) { e.push(vresult(vn[i].0, comp, sh, path, Some(obj_of(v)))) } else { e }
    }
}
/// results per focus node (no value)
pub open spec fn expf(vn: Seq<(Term, FocusNodes)>, i: int, bad: spec_fn(FocusNodes) -> bool, comp: Object, sh: IRShape, path: Option<&SHACLPath>) -> Seq<ValidationResult>
    decreases i
{
    if i <= 0 { Seq::empty() }
    else {
        let e = expf(vn, i - 1, bad, comp, sh, path);
        if bad(vn[i - 1].1) { e.push(vresult(vn[i - 1].0, comp, sh, path, None)) } else { e }
    }
}
