//! Runs the real ShEx pipeline (ShExC text -> AST -> IR -> validator) against the reference semantics of the model.
mod model;
mod p11;
use model::*;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::RDFFormat;
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use shex_ast::ir::ast2ir::AST2IR;
use shex_ast::ir::shape_label::ShapeLabel;
use shex_ast::ir::{map_state::MapState, schema_ir::SchemaIR, semantic_actions_registry::SemanticActionsRegistry, test_action_extension::TestActionExtension};
use shex_ast::shapemap::{NodeSelector, QueryShapeMap, ShapeSelector};
use shex_ast::{Node, Pred, ResolveMethod};
use std::collections::BTreeSet;
use sparql_service::RdfData;
use shex_validation::{Validator, ValidatorConfig};
use vh::{Ctx, Rng};

fn compile(src: &str) -> Result<SchemaIR, String> {
    compile_ast(&shex_ast::ast::Schema::from_reader(src.as_bytes()).map_err(|e| format!("schema does not parse: {e}"))?)
}
fn compile_ast(ast: &shex_ast::ast::Schema) -> Result<SchemaIR, String> {
    let config = ValidatorConfig::default();
    let base = IriS::new_unchecked(NS);
    let mut ms = MapState::default();
    let reg = SemanticActionsRegistry::new().with(vec![Box::new(TestActionExtension::new())]);
    reg.set_map_state(&mut ms);
    let mut c = AST2IR::new(&ResolveMethod::default(), ms);
    let mut ir = SchemaIR::new(reg);
    c.compile(ast, &base, &Some(base.clone()), &mut ir, config.external_resolvers()).map_err(|e| format!("schema does not compile: {e}"))?;
    Ok(ir)
}

fn shape_label(i: usize) -> ShapeLabel {
    ShapeLabel::iri(IriS::new_unchecked(&format!("{NS}S{i}")))
}
fn focus(n: &T) -> Result<Node, String> {
    Node::parse(&full(&n.lexical()), None).map_err(|e| format!("focus: {e}"))
}
/// verdicts of the real validator for the queries, each asked of a fresh validator, and
/// for the shape map that has them all, in the given order
fn real(schema: &str, g: &Graph, queries: &[(T, usize)], order: &[usize]) -> Result<(Vec<bool>, Vec<bool>), String> {
    let ir = compile(schema)?;
    let config = ValidatorConfig::default();
    let rdf = OxigraphInMemory::from_str(&graph_ttl(g), &RDFFormat::Turtle, None, &ReaderMode::Strict).map_err(|e| format!("graph: {e}"))?;
    // the command line keeps its data in an RdfData
    let rdf = RdfData::from_graph(rdf).map_err(|e| format!("graph: {e}"))?;
    let mut out = vec![];
    for (n, s) in queries {
        let mut v = Validator::new(&ir, &config).map_err(|e| format!("validator: {e}"))?;
        let (node, l) = (focus(n)?, shape_label(*s));
        let r = v.validate_node_shape(&node, &l, &rdf, &ir, &None).map_err(|e| format!("validation of {n:?}@S{s} fails: {e}"))?;
        let st = r.get_info(&node, &l).ok_or(format!("no result for {n:?}@S{s}"))?;
        out.push(st.is_conformant());
    }
    let mut all = out.clone();
    if queries.len() > 1 {
        let mut sm = QueryShapeMap::new();
        for k in order {
            let (n, s) = &queries[*k];
            let sel = NodeSelector::iri_unchecked(&full(&n.lexical()));
            sm.add_association(sel, &None, ShapeSelector::iri_unchecked(&format!("{NS}S{s}")), &None).map_err(|e| format!("shape map: {e}"))?;
        }
        let v = Validator::new(&ir, &config).map_err(|e| format!("validator: {e}"))?;
        let r = v.validate_shapemap(&sm, &rdf, &ir, &None).map_err(|e| format!("validation of the shape map fails: {e}"))?;
        for (k, (n, s)) in queries.iter().enumerate() {
            all[k] = r.get_info(&focus(n)?, &shape_label(*s)).ok_or(format!("the shape map has no result for {n:?}@S{s}"))?.is_conformant();
        }
        if r.iter().count() != queries.len() {
            return Err(format!("the shape map has {} results for {} pairs", r.iter().count(), queries.len()));
        }
    }
    Ok((out, all))
}

fn go(ctx: &mut Ctx, group: &str, rule: &str, n: usize, make: impl Fn(&mut Rng) -> (Schema, Graph)) {
    ctx.rule(group, rule);
    for _ in 0..n {
        if ctx.stop() {
            break;
        }
        let (s, g) = make(&mut ctx.rng);
        let mut foci: Vec<T> = g.iter().map(|t| t.0.clone()).filter(|t| matches!(t, T::I(_))).collect();
        foci.push(iri("n0"));
        foci.sort();
        foci.dedup();
        foci.truncate(3);
        let q: Vec<(T, usize)> = foci.iter().flat_map(|n| (0..s.0.len().min(3)).map(|i| (n.clone(), i)).collect::<Vec<_>>()).collect();
        let text = s.json();
        let want: Vec<bool> = q.iter().map(|(n, i)| s.typing(&g, n).contains(&(n.clone(), *i))).collect();
        let nontriv = !g.is_empty();
        let mut order: Vec<usize> = (0..q.len()).collect();
        for k in (1..q.len()).rev() {
            order.swap(k, ctx.rng.below(k + 1))
        }
        ctx.case(nontriv, || format!("schema: {}graph: {}", s.shexc(), graph_ttl(&g)), || {
            let (got, all) = real(&text, &g, &q, &order)?;
            for (k, (n, i)) in q.iter().enumerate() {
                if all[k] != want[k] {
                    let o: Vec<String> = order.iter().map(|k| format!("{}@S{}", q[*k].0.ttl(), q[*k].1)).collect();
                    return Err(format!("shape map {}: node {} shape S{i}: the validator says {}, the semantics says {}", o.join(","), n.ttl(), all[k], want[k]));
                }
                if got[k] != want[k] {
                    return Err(format!("node {} shape S{i}: the validator says {}, the semantics says {}", n.ttl(), got[k], want[k]));
                }
            }
            Ok(())
        });
    }
}

const PREDS: [&str; 3] = ["p", "q", "r"];
fn node(r: &mut Rng, k: usize) -> T {
    if r.chance(1, 8) { T::B(format!("b{}", r.below(2))) } else { iri(&format!("n{}", r.below(k))) }
}
fn litv(r: &mut Rng) -> T {
    match r.below(36) {
        26 => lit("INF", "double"),
        27 => lit("NaN", "double"),
        28 => lit("-INF", "double"),
        29 => lit("-100000000000000000000000000000", "integer"),
        30 => r.pick(&[lit("9007199254740994", "integer"), lit("-9223372036854775808", "integer"), lit("9007199254740992", "long")]).clone(),
        33 => r.pick(&[lit("05", "long"), lit("+5", "long"), lit("-0", "integer"), lit("-1", "nonNegativeInteger"), lit("300", "unsignedByte")]).clone(),
        21 => lit("100000000000000000000000000000000000", "nonNegativeInteger"),
        31 => lit("1.0E40", "double"),
        32 => lit("4.0E-7", "double"),
        22 => lit("5", "long"),
        23 => lit("5", "unsignedByte"),
        24 => lit("2020-01-02T03:04:05Z", "dateTime"),
        25 => lit("01", "integer"),
        0 => lit("1", "integer"),
        1 => lit("2", "integer"),
        2 => lit("10", "integer"),
        3 => lit("-3", "integer"),
        4 => lit("1.5", "decimal"),
        5 => lit("2.0", "decimal"),
        6 => lit("0.25", "decimal"),
        7 => lit("1.0E0", "double"),
        8 => lit("2.5E1", "double"),
        9 => lit("x", "integer"),
        10 => lit("abc", "string"),
        11 => lit("ab", "string"),
        12 => lit("", "string"),
        13 => lit("é€x", "string"),
        14 => lang("ab", "en"),
        15 => lang("ab", "en-us"),
        16 => lang("abc", "fr"),
        17 => lit("true", "boolean"),
        18 => lit("maybe", "boolean"),
        19 => lit("1", "string"),
        20 => lit("123456789012345", "integer"),
        _ => lit("100.05", "decimal"),
    }
}
fn term(r: &mut Rng, k: usize) -> T {
    if r.chance(1, 2) { node(r, k) } else { litv(r) }
}
fn graph(r: &mut Rng, k: usize, e: usize, lits: bool) -> Graph {
    let mut g: Graph = (0..e)
        .map(|_| {
            let s = if r.chance(1, 2) { iri("n0") } else { node(r, k) };
            let p = r.pick(&PREDS).to_string();
            (s, p, if lits { term(r, k) } else { node(r, k) })
        })
        .collect();
    g.sort();
    g.dedup();
    g
}
fn value(r: &mut Rng) -> V {
    let istem = |r: &mut Rng| r.pick(&["n", "n1", "", "m"]).to_string();
    let lstem = |r: &mut Rng| r.pick(&["a", "ab", "1", "", "é"]).to_string();
    let gstem = |r: &mut Rng| r.pick(&["en", "fr", "en-us", "en-u", "e-us", "EN", "en-us-x1"]).to_string();
    let k = if r.chance(1, 3) { *r.pick(&[3usize, 6, 9, 9]) } else { r.below(10) };
    match k {
        0 | 1 => V::Obj(loop {
            // ill-typed literals and integers outside the machine range are no value set values
            if let T::L { lex, dt, lang } = litv(r) {
                if !lang.is_empty() || (well_typed(&lex, &dt) && lex.len() < 22) {
                    break T::L { lex, dt, lang };
                }
            }
        }),
        2 => V::Obj(iri(&format!("n{}", r.below(3)))),
        3 => V::Lang(gstem(r)),
        4 => V::IriStem(istem(r)),
        5 => V::LitStem(lstem(r)),
        6 => V::LangStem(gstem(r)),
        7 => {
            let s = if r.chance(1, 2) { None } else { Some(istem(r)) };
            let ex = (0..1 + r.below(2)).map(|_| if r.chance(1, 2) { Ex::V(iri(&format!("n{}", r.below(3)))) } else { Ex::Stem(r.pick(&["n1", "m", "n"]).to_string()) }).collect();
            V::IriRange(s, ex)
        }
        8 => {
            let s = if r.chance(1, 2) { None } else { Some(lstem(r)) };
            let ex = (0..1 + r.below(2)).map(|_| if r.chance(1, 2) { Ex::V(lit(r.pick(&["ab", "abc", "1"]), "string")) } else { Ex::Stem(r.pick(&["ab", "1"]).to_string()) }).collect();
            V::LitRange(s, ex)
        }
        _ => {
            let s = if r.chance(1, 2) { None } else { Some(gstem(r)) };
            let ex = (0..1 + r.below(2)).map(|_| if r.chance(1, 2) { Ex::LangTag(gstem(r)) } else { Ex::Stem(gstem(r)) }).collect();
            V::LangRange(s, ex)
        }
    }
}
fn num(r: &mut Rng) -> T {
    match r.below(9) {
        5 => lit("9007199254740993", "integer"),
        6 => lit("-9223372036854775807", "integer"),
        7 => lit("1.0E35", "double"),
        0 => lit("1", "integer"),
        1 => lit("2", "integer"),
        2 => lit("-3", "integer"),
        3 => lit("1.5", "decimal"),
        4 => lit("10.0", "decimal"),
        _ => lit("1.0E1", "double"),
    }
}
fn facet(r: &mut Rng) -> F {
    match r.below(10) {
        0 => F::Len(r.below(4)),
        1 => F::MinLen(r.below(4)),
        2 => F::MaxLen(r.below(5)),
        3 => F::Pat(r.pick(&["^a", "b$", "b", "n1", "^http"]).to_string()),
        4 => F::MinI(num(r)),
        5 => F::MinE(num(r)),
        6 => F::MaxI(num(r)),
        7 => F::MaxE(num(r)),
        8 => F::Total(1 + r.below(5)),
        _ => F::Frac(r.below(3)),
    }
}
/// lengths and patterns of blank nodes depend on their labels, which a store may rename
fn no_bnodes(n: &mut Nc) {
    if n.facets.iter().any(|f| !f.numeric()) && n.kind.is_none() && n.dt.is_none() && n.vals.is_none() {
        n.kind = Some(Kind::Literal)
    }
    if n.facets.iter().any(|f| !f.numeric()) && matches!(n.kind, Some(Kind::Bnode | Kind::NonLiteral)) {
        n.kind = Some(Kind::Iri)
    }
    if matches!(n.kind, Some(Kind::Bnode | Kind::NonLiteral | Kind::Iri)) {
        n.facets.retain(|f| !f.numeric())
    }
}
fn nc(r: &mut Rng) -> Nc {
    let mut n = Nc::default();
    match r.below(5) {
        0 => n.kind = Some(r.pick(&[Kind::Iri, Kind::Bnode, Kind::Literal, Kind::NonLiteral]).clone()),
        1 => n.dt = Some(r.pick(&["integer", "decimal", "double", "string", "boolean", "langString"]).to_string()),
        2 => n.vals = Some((0..1 + r.below(3)).map(|_| value(r)).collect()),
        _ => {}
    }
    let most = if r.chance(1, 4) { 6 } else { 3 };
    for _ in 0..r.below(most) {
        n.facets.push(facet(r))
    }
    if n.vals.is_some() {
        n.facets.clear()
    }
    if n.kind.is_none() && n.dt.is_none() && n.vals.is_none() {
        // the grammar has either numeric or string facets alone
        let first = n.facets.first().map(|f| f.numeric());
        n.facets.retain(|f| Some(f.numeric()) == first);
    }
    let mut seen = Vec::new();
    n.facets.retain(|f| {
        let d = std::mem::discriminant(f);
        !seen.contains(&d) && {
            seen.push(d);
            true
        }
    });
    no_bnodes(&mut n);
    n
}
fn mm(r: &mut Rng) -> (usize, Option<usize>) {
    match r.below(9) {
        0 | 1 => (1, Some(1)),
        2 => (0, Some(1)),
        3 => (0, None),
        4 => (1, None),
        5 => (2, Some(2)),
        6 => (1, Some(2)),
        7 => (0, Some(2)),
        _ => (2, None),
    }
}
fn tc(r: &mut Rng, f: &mut dyn FnMut(&mut Rng) -> Option<Se>) -> Tc {
    let (min, max) = mm(r);
    Tc { p: r.pick(&PREDS).to_string(), inv: r.chance(1, 4), e: f(r).map(Box::new), min, max, act: r.chance(1, 12) }
}
fn te(r: &mut Rng, depth: usize, f: &mut dyn FnMut(&mut Rng) -> Option<Se>) -> Te {
    if depth == 0 || r.chance(1, 4) {
        return Te::Tc(tc(r, f));
    }
    let v: Vec<Te> = (0..2 + r.below(2)).map(|_| te(r, depth - 1, f)).collect();
    let (a, b) = if r.chance(2, 3) { (1, Some(1)) } else { mm(r) };
    if r.chance(2, 3) { Te::Each(v, a, b) } else { Te::One(v, a, b) }
}

fn s05(ctx: &mut Ctx) {
    let n = ctx.n(6000, 60000);
    go(ctx, "value sets", "one property with a random value set (terms, stems, ranges with exclusions, language tags) and up to 3 values", n, |r| {
        let tags = r.chance(1, 3);
        let tag = |r: &mut Rng| lang(r.pick(&["ab", "abc"]), r.pick(&["en", "en-us", "EN-us", "eng", "en-uk", "fr", "fr-us", "en-us-x1", "en-us-x12"]));
        let g: Graph = { let k = 1 + r.below(3); (0..k).map(|_| (iri("n0"), "p".into(), if tags { tag(r) } else { term(r, 3) })).collect() };
        let vals: Vec<V> = (0..1 + r.below(if tags { 2 } else { 3 })).map(|_| value(r)).collect();
        let t = Tc { p: "p".into(), inv: false, e: Some(Box::new(Se::N(Nc { vals: Some(vals), ..Default::default() }))), min: 0, max: None, act: false };
        let mut g = g;
        g.sort();
        g.dedup();
        (Schema(vec![(Se::S(Sh { te: Some(Te::Tc(t)), ..Default::default() }), 0)]), g)
    });
}
fn s06(ctx: &mut Ctx) {
    let n = ctx.n(8000, 60000);
    go(ctx, "node constraints", "one property with a random node constraint (kind, datatype, facets) and up to 3 values", n, |r| {
        let mut g: Graph = { let k = 1 + r.below(2); (0..k).map(|_| (iri("n0"), "p".into(), term(r, 3))).collect() };
        g.sort();
        g.dedup();
        let mut n = nc(r);
        if r.chance(1, 2) {
            n.vals = None
        }
        let t = Tc { p: "p".into(), inv: false, e: Some(Box::new(Se::N(n))), min: 0, max: None, act: false };
        (Schema(vec![(Se::S(Sh { te: Some(Te::Tc(t)), ..Default::default() }), 0)]), g)
    });
    s06_int(ctx);
}
/// xsd:int has no numeric representation of its own in the code: its lexical forms are not checked and its facets never hold
fn s06_int(ctx: &mut Ctx) {
    ctx.rule("xsd:int", "values of xsd:int with datatype and numeric facets");
    let cases = [("x", Nc { dt: Some("int".into()), ..Default::default() }, false), ("5", Nc { dt: Some("int".into()), ..Default::default() }, true),
        ("5", Nc { facets: vec![F::MinI(lit("3", "integer"))], ..Default::default() }, true), ("5", Nc { facets: vec![F::Total(1)], ..Default::default() }, true),
        ("5", Nc { facets: vec![F::MaxE(lit("3", "integer"))], ..Default::default() }, false)];
    for (lex, n, want) in cases {
        let t = Tc { p: "p".into(), inv: false, e: Some(Box::new(Se::N(n))), min: 0, max: None, act: false };
        let s = Schema(vec![(Se::S(Sh { te: Some(Te::Tc(t)), ..Default::default() }), 0)]);
        let g = vec![(iri("n0"), "p".to_string(), lit(lex, "int"))];
        let key = if want == (lex == "5") && want && s.shexc().contains("int>") { "" } else if want || lex == "x" { "xsd-int" } else { "" };
        ctx.case_k(key, true, || format!("schema: {}graph: {}", s.shexc(), graph_ttl(&g)), || {
            let got = real(&s.json(), &g, &[(iri("n0"), 0)], &[0])?.0;
            if got[0] != want { Err(format!("the validator says {}, the semantics says {want}", got[0])) } else { Ok(()) }
        });
    }
}
fn s07(ctx: &mut Ctx) {
    let n = ctx.n(6000, 60000);
    go(ctx, "triple expressions", "random triple expressions (each-of, one-of, repeated groups, cardinalities) of depth up to 2 and up to 6 triples", n, |r| {
        let g = { let e = r.below(7); let mut g = graph(r, 3, e, false); for t in g.iter_mut() { t.0 = iri("n0") } g.sort(); g.dedup(); g };
        let d = 1 + r.below(2);
        let t = te(r, d, &mut |r| if r.chance(1, 2) { None } else { Some(Se::N(Nc { vals: Some(vec![V::Obj(iri(&format!("n{}", r.below(3)))), V::Obj(iri("n1"))]), ..Default::default() })) });
        (Schema(vec![(Se::S(Sh { te: Some(t), closed: r.chance(1, 4), extra: vec![] }), 0)]), g)
    });
    s07_deep(ctx);
}
/// one property with `n` values against p{1}; p{n-1}: the first distribution that matches comes after 2^(n-1) - 1 others.
/// In a process of its own, as running out of stack ends the process.
fn s07_deep(ctx: &mut Ctx) {
    ctx.rule("many distributions", "a node whose first matching distribution comes after thousands of others, validated on a stack of 1 MB");
    let n = 13;
    ctx.case(true, || format!("<S0> {{ <p> . {{1}} ; <p> . {{{}}} }} on a node with {n} values of <p>", n - 1), || {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let r = std::process::Command::new(exe).env("VH_DEEP", n.to_string()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
        match r.code() {
            Some(0) => Ok(()),
            Some(1) => Err("the validator rejects the node".into()),
            _ => Err(format!("the validator crashes: {r}")),
        }
    });
}
fn deep(n: usize) -> bool {
    let g: Graph = (0..n).map(|i| (iri("n0"), "p".to_string(), iri(&format!("m{i}")))).collect();
    let t = |k: usize| Te::Tc(Tc { p: "p".into(), inv: false, e: None, min: k, max: Some(k), act: false });
    let s = Schema(vec![(Se::S(Sh { te: Some(Te::Each(vec![t(1), t(n - 1)], 1, Some(1))), ..Default::default() }), 0)]);
    let j = s.json();
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || real(&j, &g, &[(iri("n0"), 0)], &[0]).map(|r| r.0[0]).unwrap_or(false)).expect("thread");
    h.join().unwrap_or(false)
}
/// shape expression of a shape in stratum `st`; `refs(r, neg)` gives allowed references
fn se(r: &mut Rng, depth: usize, neg: bool, refs: &mut dyn FnMut(&mut Rng, bool) -> Option<usize>) -> Se {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => Se::N(nc(r)),
        // a reference outside a triple constraint goes to a lower stratum (the specification rules out unguarded cycles)
        1 => match refs(r, true) {
            Some(i) => Se::Ref(i),
            _ => Se::S(shape(r, neg, refs)),
        },
        2..=4 => Se::S(shape(r, neg, refs)),
        5 => Se::And((0..2 + r.below(2)).map(|_| se(r, depth - 1, neg, refs)).collect()),
        6 => Se::Or((0..2 + r.below(2)).map(|_| se(r, depth - 1, neg, refs)).collect()),
        _ => Se::Not(Box::new(se(r, depth - 1, true, refs))),
    }
}
fn shape(r: &mut Rng, neg: bool, refs: &mut dyn FnMut(&mut Rng, bool) -> Option<usize>) -> Sh {
    let extra: Vec<String> = if r.chance(1, 3) { vec![r.pick(&PREDS).to_string()] } else { vec![] };
    let closed = r.chance(1, 4);
    if r.chance(1, 10) {
        return Sh { closed, extra: vec![], te: None };
    }
    let neg2 = neg || !extra.is_empty();
    let t = te(r, 1, &mut |r| match r.below(4) {
        0 => None,
        1 => Some(Se::N(nc(r))),
        _ => match refs(r, neg2) {
            Some(i) => Some(if r.chance(1, 4) { Se::Or(vec![Se::Ref(i), Se::N(nc(r))]) } else { Se::Ref(i) }),
            None => Some(Se::N(nc(r))),
        },
    });
    // EXTRA is only given predicates of the (forward) expression: what it means for others under CLOSED is not settled
    let mut tcs = vec![];
    t.tcs(&mut tcs);
    tcs.retain(|t| !t.inv);
    let extra = if extra.is_empty() || tcs.is_empty() { vec![] } else { vec![r.pick(&tcs).p.clone()] };
    Sh { closed, extra, te: Some(t) }
}
fn strat(r: &mut Rng, k: usize, rec: bool) -> Schema {
    // S0 is in the top stratum
    let st: Vec<usize> = (0..k).map(|i| if rec { (k - 1 - i) / 2 } else { k - 1 - i }).collect();
    Schema((0..k).map(|i| {
        let st2 = st.clone();
        let mut refs = move |r: &mut Rng, neg: bool| {
            let c: Vec<usize> = (0..st2.len()).filter(|j| st2[*j] < st2[i] || (rec && !neg && st2[*j] == st2[i])).collect();
            if c.is_empty() { None } else { Some(*r.pick(&c)) }
        };
        let e = if rec && r.chance(2, 3) { Se::S(shape(r, false, &mut refs)) } else { se(r, 2, false, &mut refs) };
        (e, st[i])
    }).collect())
}
fn s08(ctx: &mut Ctx) {
    let n = ctx.n(6000, 60000);
    go(ctx, "shape expressions", "acyclic schemas of 1..3 shapes with AND, OR, NOT, references, CLOSED and EXTRA over graphs of up to 7 triples", n, |r| {
        let g = { let e = r.below(8); graph(r, 3, e, true) };
        let k = 1 + r.below(3);
        (strat(r, k, false), g)
    });
}
fn s09(ctx: &mut Ctx) {
    let n = ctx.n(5000, 60000);
    go(ctx, "recursion", "schemas of 2..4 shapes with positive cycles of references and stratified negation over graphs of up to 6 triples", n, |r| {
        let k = 2 + r.below(3);
        let g = { let e = r.below(if k == 4 { 5 } else { 7 }); let l = r.chance(1, 4); graph(r, 3, e, l) };
        (strat(r, k, true), g)
    });
}

/// edges of the dependency graph: operands of boolean operators belong to the shape they are part of, value expressions are shapes of their own
fn dep_edges(e: &Se, neg: bool, from: usize, n: &mut usize, out: &mut Vec<(usize, usize, bool)>) {
    match e {
        Se::N(_) => {},
        Se::Ref(i) => out.push((from, *i, neg)),
        Se::Not(x) => dep_edges(x, !neg, from, n, out),
        Se::And(v) | Se::Or(v) => v.iter().for_each(|x| dep_edges(x, neg, from, n, out)),
        Se::S(sh) => {
            let mut tcs = vec![];
            if let Some(t) = &sh.te {
                t.tcs(&mut tcs);
            }
            for t in tcs {
                let neg = neg || (!t.inv && sh.extra.contains(&t.p));
                match t.e.as_deref() {
                    None | Some(Se::N(_)) => {},
                    Some(Se::Ref(i)) => out.push((from, *i, neg)),
                    Some(x) => {
                        let a = *n;
                        *n += 1;
                        out.push((from, a, neg));
                        dep_edges(x, false, a, n, out);
                    },
                }
            }
        },
    }
}
/// some shape depends through a negation on a shape that leads back to it
fn negates_itself(s: &Schema) -> bool {
    let mut n = s.0.len();
    let mut out = vec![];
    for (i, (e, _)) in s.0.iter().enumerate() {
        dep_edges(e, false, i, &mut n, &mut out);
    }
    let mut lead = vec![vec![false; n]; n];
    for (i, l) in lead.iter_mut().enumerate() {
        l[i] = true
    }
    for _ in 0..n {
        for (a, b, _) in &out {
            for l in lead.iter_mut() {
                if l[*a] {
                    l[*b] = true
                }
            }
        }
    }
    out.iter().any(|(a, b, neg)| *neg && lead[*b][*a])
}
fn s10(ctx: &mut Ctx) {
    let n = ctx.n(5000, 60000);
    ctx.rule("negation cycles", "schemas of 1..4 shapes with AND, OR, NOT, EXTRA and references of all kinds; refused exactly when some shape depends through a negation on one that leads back to it");
    let (mut yes, mut no) = (0, 0);
    for _ in 0..n {
        if ctx.stop() {
            break;
        }
        let r = &mut ctx.rng;
        let k = 1 + r.below(4);
        let dense = 1 + r.below(4);
        let mut refs = |r: &mut Rng, _: bool| if r.chance(dense, 4) { Some(r.below(k)) } else { None };
        let s = Schema((0..k).map(|_| { let d = r.below(3); (se(r, d, false, &mut refs), 0) }).collect());
        let want = negates_itself(&s);
        if want { yes += 1 } else { no += 1 }
        ctx.case(true, || format!("schema: {}", s.shexc()), || {
            let ir = compile(&s.json())?;
            let show = |b: bool| if b { "has" } else { "does not have" };
            if ir.has_neg_cycle() != want {
                return Err(format!("the code says that the schema {} a cycle through a negation, it {} one", show(ir.has_neg_cycle()), show(want)));
            }
            if ir.neg_cycles().is_empty() == want {
                return Err(format!("{} cycles are reported", ir.neg_cycles().len()));
            }
            match (Validator::new(&ir, &ValidatorConfig::default()), want) {
                (Ok(_), true) => Err("the validator accepts a schema with a cycle through a negation".into()),
                (Err(e), false) => Err(format!("the validator refuses a schema without a cycle through a negation: {e}")),
                _ => Ok(()),
            }
        });
    }
    if std::env::var("VH_STAT").is_ok() { eprintln!("with a negation cycle {yes}, without {no}"); }
}

/// predicates below an expression, and what its triple constraints refer to (None: a shape without a label); shapes below triple constraints are not below it
type Below = (BTreeSet<P>, BTreeSet<(P, Option<usize>)>, BTreeSet<usize>);
/// IRI and direction
type P = (String, bool);
fn pk(p: &Pred) -> P {
    (p.iri().to_string(), p.is_direct())
}
fn below(s: &Schema, e: &Se, seen: &mut Vec<usize>, out: &mut Below) {
    match e {
        Se::N(_) => {},
        Se::Ref(i) => {
            out.2.insert(*i);
            if !seen.contains(i) {
                seen.push(*i);
                below(s, &s.0[*i].0, seen, out)
            }
        },
        Se::Not(x) => below(s, x, seen, out),
        Se::And(v) | Se::Or(v) => v.iter().for_each(|x| below(s, x, seen, out)),
        Se::S(sh) => {
            let mut tcs = vec![];
            if let Some(t) = &sh.te {
                t.tcs(&mut tcs);
            }
            for t in tcs {
                let p: P = (format!("{NS}{}", t.p), !t.inv);
                match t.e.as_deref() {
                    None | Some(Se::N(_)) => {},
                    Some(Se::Ref(i)) => {
                        out.1.insert((p.clone(), Some(*i)));
                    },
                    Some(_) => {
                        out.1.insert((p.clone(), None));
                    },
                }
                out.0.insert(p);
            }
        },
    }
}
fn s11(ctx: &mut Ctx) {
    let n = ctx.n(4000, 40000);
    ctx.rule("references and predicates", "schemas of 1..5 shapes with AND, OR, NOT, references of all kinds, circular ones included; predicates and references of every shape against the set of shapes below it");
    for _ in 0..n {
        if ctx.stop() {
            break;
        }
        let r = &mut ctx.rng;
        let k = 1 + r.below(5);
        let dense = 1 + r.below(4);
        let mut refs = |r: &mut Rng, _: bool| if r.chance(dense, 4) { Some(r.below(k)) } else { None };
        let s = Schema((0..k).map(|_| { let d = r.below(3); (if r.chance(1, 4) { Se::Ref(r.below(k)) } else { se(r, d, false, &mut refs) }, 0) }).collect());
        ctx.case(true, || format!("schema: {}", s.shexc()), || {
            let ir = compile(&s.json())?;
            for i in 0..k {
                let mut want: Below = Default::default();
                below(&s, &s.0[i].0, &mut vec![], &mut want);
                let idx = *ir.find_shape_label_idx(&shape_label(i)).ok_or(format!("S{i} is not in the compiled schema"))?;
                let got: BTreeSet<P> = ir.get_preds_extends(&idx).iter().map(pk).collect();
                if got != want.0 {
                    return Err(format!("predicates of S{i}: {got:?}, expected {:?}", want.0));
                }
                let e = ir.find_shape_idx(&idx).ok_or("no shape")?.expr().clone();
                let mut tcs = BTreeSet::new();
                let mut outs = BTreeSet::new();
                for (p, v) in e.references(&ir) {
                    for t in v {
                        let l = (0..k).find(|j| ir.shape_label_from_idx(&t) == Some(&shape_label(*j)));
                        if p == Pred::default() {
                            outs.extend(l);
                        } else {
                            tcs.insert((pk(&p), l));
                        }
                    }
                }
                if tcs != want.1 {
                    return Err(format!("references of the triple constraints of S{i}: {tcs:?}, expected {:?}", want.1));
                }
                if outs != want.2 {
                    return Err(format!("other references of S{i}: {outs:?}, expected {:?}", want.2));
                }
            }
            Ok(())
        });
    }
}

fn main() {
    if let Some(n) = std::env::var("VH_DEEP").ok().and_then(|n| n.parse().ok()) {
        std::process::exit(if deep(n) { 0 } else { 1 });
    }
    vh::main(&[("S05", s05), ("S06", s06), ("S07", s07), ("S08", s08), ("S09", s09), ("S10", s10), ("S11", s11), ("P11", p11::p11)]);
}
