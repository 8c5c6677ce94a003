mod model;
use model::*;
use rudof_rdf::rdf_core::RDFFormat;
use rudof_rdf::rdf_core::term::Object;
use rudof_rdf::rdf_impl::ReaderMode;
use shacl::ir::IRSchema;
use shacl::rdf::ShaclParser;
use shacl::validator::ShaclValidationMode;
use shacl::validator::processor::{DataValidation, ShaclProcessor};
use sparql_service::RdfData;
use std::collections::BTreeMap;
use vh::{Ctx, Rng};

fn okey(o: &Object) -> String {
    match o {
        Object::Iri(i) => i.as_str().to_string(),
        Object::BlankNode(_) => "_:".into(),
        Object::Literal(l) => match l.lang() {
            Some(t) => format!("\"{}\"@{}", l.lexical_form(), t.as_str().to_lowercase()),
            None => format!("\"{}\"^^{}", l.lexical_form(), l.datatype().get_iri().map(|i| i.as_str().replace(XSD, "")).unwrap_or_default()),
        },
        o => format!("{o}"),
    }
}

fn rdf(t: &str) -> Result<RdfData, String> {
    RdfData::from_str(t, &RDFFormat::Turtle, None, &ReaderMode::Strict).map_err(|e| format!("parse: {e}"))
}

/// what the real validator reports
fn real(shapes: &str, data: &str, mode: &ShaclValidationMode) -> Result<(bool, BTreeMap<Res, usize>), String> {
    let s = ShaclParser::new(rdf(shapes)?).parse().map_err(|e| format!("shapes: {e}"))?;
    let ir: IRSchema = s.try_into().map_err(|e| format!("ir: {e}"))?;
    let mut v: DataValidation = rdf(data)?.into();
    let rep = v.validate(&ir, mode).map_err(|e| format!("validate: {e}"))?;
    let mut m = BTreeMap::new();
    for r in rep.results() {
        let k = (
            r.source().map(okey).unwrap_or_default(),
            okey(r.focus_node()),
            okey(r.constraint_component()).replace("http://www.w3.org/ns/shacl#", ""),
            r.value().map(okey).unwrap_or_default(),
        );
        *m.entry(k).or_insert(0) += 1;
    }
    Ok((rep.conforms(), m))
}

fn show(m: &[&Res]) -> String {
    m.iter().take(4).map(|(s, f, c, v)| format!("[shape {s} focus {f} {c} value {v}]").replace(NS, ":")).collect::<Vec<_>>().join(" ")
}

fn check(s: &Schema, g: &Graph, mode: &ShaclValidationMode) -> Result<(), String> {
    let (conf, got) = real(&s.ttl(), &graph_ttl(g), mode)?;
    let want = s.report(g);
    if conf != got.is_empty() {
        return Err("conforms() disagrees with the list of results".into());
    }
    let extra: Vec<&Res> = got.keys().filter(|k| !want.contains_key(*k)).collect();
    let missing: Vec<&Res> = want.keys().filter(|k| !got.contains_key(*k)).collect();
    if extra.is_empty() && missing.is_empty() {
        return Ok(());
    }
    Err(format!("reported although satisfied: {}; violated but not reported: {}", show(&extra), show(&missing)))
}

// ---------- generators ----------
fn literal(r: &mut Rng) -> T {
    match r.below(12) {
        0 | 1 => lit(r.pick(&["a", "ab", "b", "", "é", "日本語", "ab c"]), "string"),
        2 | 3 => lang(r.pick(&["a", "x", "b"]), r.pick(&["en", "en-us", "fr", "de-ch", "eng"])),
        4..=7 => lit(r.pick(&["0", "1", "2", "3", "10", "-1", "01"]), "integer"),
        8 => lit(r.pick(&["1.5", "2.0", "0.5", "-0.5"]), "decimal"),
        9 => lit(r.pick(&["1.0", "2.5", "1.0E1"]), "double"),
        10 => lit(r.pick(&["true", "false"]), "boolean"),
        _ => lit(r.pick(&["x", "1.5", ""]), "integer"),
    }
}
fn node(r: &mut Rng, n: usize) -> T {
    iri(&format!("n{}", r.below(n)))
}
const PREDS: [&str; 3] = ["p", "q", "r"];
fn value(r: &mut Rng, n: usize) -> T {
    match r.below(10) {
        0..=4 => node(r, n),
        5 => T::B(format!("b{}", r.below(2))),
        _ => literal(r),
    }
}
fn graph(r: &mut Rng, n: usize, edges: usize, classes: bool) -> Graph {
    let mut g: Graph = vec![];
    for _ in 0..edges {
        let s = if r.chance(1, 12) { T::B(format!("b{}", r.below(2))) } else { node(r, n) };
        g.push((s, r.pick(&PREDS).to_string(), value(r, n)));
    }
    if classes {
        for _ in 0..1 + r.below(3) {
            g.push((node(r, n), TYPE.into(), iri(&format!("C{}", r.below(4)))));
        }
        for _ in 0..r.below(4) {
            let a = r.below(4);
            g.push((iri(&format!("C{a}")), SUBC.into(), iri(&format!("C{}", r.below(4)))));
        }
    }
    g.sort();
    g.dedup();
    g
}
fn path(r: &mut Rng, d: usize) -> Path {
    let p = |r: &mut Rng| Path::P(r.pick(&PREDS).to_string());
    if d == 0 {
        return p(r);
    }
    match r.below(9) {
        0 | 1 => p(r),
        2 => Path::Inv(Box::new(p(r))),
        3 => Path::Seq((0..2 + r.below(2)).map(|_| path(r, d - 1)).collect()),
        4 => Path::Alt((0..2 + r.below(2)).map(|_| path(r, d - 1)).collect()),
        5 => Path::Star(Box::new(path(r, d - 1))),
        6 => Path::Plus(Box::new(path(r, d - 1))),
        7 => Path::Opt(Box::new(path(r, d - 1))),
        _ => Path::Inv(Box::new(path(r, d - 1))),
    }
}
fn target(r: &mut Rng, n: usize) -> Target {
    match r.below(8) {
        0..=4 => Target::Node(node(r, n)),
        5 => Target::SubjectsOf(r.pick(&PREDS).to_string()),
        6 => Target::ObjectsOf(r.pick(&PREDS).to_string()),
        _ => Target::Node(literal(r)),
    }
}

/// `mk(rng, shape index, number of shapes, has a path)` makes the constraints under study
fn schema(r: &mut Rng, n: usize, k: usize, pathdepth: usize, deep: bool, mk: &mut dyn FnMut(&mut Rng, usize, usize, bool) -> Vec<C>) -> Schema {
    let mut v = vec![];
    for i in 0..k {
        let mut s = Shape::default();
        let top = i == 0 || r.chance(1, 4);
        if r.chance(if top { 1 } else { 2 }, 3) {
            s.path = Some(path(r, pathdepth));
        }
        if top {
            for _ in 0..1 + r.below(3) {
                s.targets.push(target(r, n));
            }
        }
        s.cs = mk(r, i, k, s.path.is_some());
        if i + 1 < k && (deep || s.path.is_none()) {
            for j in i + 1..k {
                if r.chance(1, 3) {
                    s.props.push(j);
                }
            }
        }
        v.push(s);
    }
    // sh:property only refers to property shapes
    for i in 0..k {
        let props: Vec<usize> = v[i].props.iter().copied().filter(|j| v[*j].path.is_some()).collect();
        v[i].props = props;
    }
    Schema(v)
}

fn refs(r: &mut Rng, i: usize, k: usize) -> Vec<usize> {
    (0..1 + r.below(3)).map(|_| i + 1 + r.below(k - i - 1)).collect()
}
fn simple(r: &mut Rng, path: bool) -> C {
    match r.below(if path { 9 } else { 7 }) {
        0 => C::NodeKind(r.pick(&["IRI", "BlankNode", "Literal", "IRIOrLiteral", "BlankNodeOrIRI", "BlankNodeOrLiteral"])),
        1 => C::In((0..1 + r.below(3)).map(|_| if r.chance(1, 2) { node(r, 3) } else { literal(r) }).collect()),
        2 => C::HasValue(if r.chance(1, 2) { node(r, 3) } else { literal(r) }),
        3 => C::MinLength(r.below(4)),
        4 => C::MaxLength(r.below(4)),
        5 => C::MinIncl(lit("1", "integer")),
        6 => C::MaxExcl(lit("2", "integer")),
        7 => C::MinCount(1 + r.below(2)),
        _ => C::MaxCount(r.below(3)),
    }
}

fn go(ctx: &mut Ctx, group: &str, rule: &str, count: usize, mut mk: impl FnMut(&mut Rng) -> (Schema, Graph)) {
    ctx.rule(group, rule);
    for _ in 0..count {
        if ctx.stop() {
            return;
        }
        let (s, g) = mk(&mut ctx.rng);
        let nontrivial = !g.is_empty();
        ctx.case(nontrivial, || format!("{}\n--data--\n{}", s.ttl(), graph_ttl(&g)).replace(NS, "http://e.org/"), || check(&s, &g, &ShaclValidationMode::Native));
    }
}

fn counts(ctx: &mut Ctx) {
    let n = ctx.n(4000, 20000);
    go(ctx, "count", "random graphs over 4 nodes, property shapes with sh:minCount/sh:maxCount in 0..4 on predicate paths", n, |r| {
        let g = { let (n, e) = (4, r.below(12)); graph(r, n, e, false) };
        let s = schema(r, 4, 3, 0, true, &mut |r, _, _, p| {
            let mut v = vec![];
            if p {
                if r.chance(2, 3) { v.push(C::MinCount(r.below(4))) }
                if r.chance(2, 3) { v.push(C::MaxCount(r.below(4))) }
            }
            v
        });
        (s, g)
    });
}

fn h12(ctx: &mut Ctx) {
    counts(ctx);
    qualified(ctx);
}

fn h13(ctx: &mut Ctx) {
    let n = ctx.n(6000, 30000);
    go(ctx, "logic", "random acyclic schemas of 2..6 shapes combined with sh:and/or/xone/not/node over random graphs", n, |r| {
        let g = { let e = r.below(10); graph(r, 3, e, false) };
        let k = 2 + r.below(5);
        let s = schema(r, 3, k, 0, false, &mut |r, i, k, p| {
            let mut v = vec![];
            if i + 1 < k && r.chance(3, 4) {
                let l = refs(r, i, k);
                match r.below(6) {
                    0 => v.push(C::And(l)),
                    1 => v.push(C::Or(l)),
                    2 => v.push(C::Xone(l)),
                    3 => v.push(C::Not(l[0])),
                    4 => v.push(C::Node(l[0])),
                    _ => {
                        v.push(C::And(l.clone()));
                        v.push(C::Not(l[0]));
                    }
                }
            }
            if v.is_empty() || r.chance(1, 3) {
                v.push(simple(r, p))
            }
            v
        });
        (s, g)
    });
}


/// a few property / node shapes, every one with its own targets, constrained by `mk`
fn flat(r: &mut Rng, n: usize, pathdepth: usize, mk: &mut dyn FnMut(&mut Rng, bool) -> Vec<C>) -> Schema {
    let k = 1 + r.below(3);
    schema(r, n, k, pathdepth, true, &mut |r, _, _, p| mk(r, p))
}

fn qualified(ctx: &mut Ctx) {
    let n = ctx.n(4000, 20000);
    go(ctx, "qualified", "a node shape with 1..3 sibling property shapes with sh:qualifiedValueShape (disjoint or not) over random graphs", n, |r| {
        let g = { let e = 2 + r.below(10); graph(r, 4, e, false) };
        let np = 1 + r.below(3);
        let nv = 1 + r.below(3);
        let mut v = vec![Shape { props: (1..=np).collect(), ..Default::default() }];
        for _ in 0..1 + r.below(3) {
            v[0].targets.push(target(r, 4));
        }
        for _ in 0..np {
            let shape = 1 + np + r.below(nv);
            let (min, max) = match r.below(3) {
                0 => (Some(r.below(4)), None),
                1 => (None, Some(r.below(3))),
                _ => (Some(r.below(3)), Some(r.below(3))),
            };
            let cs = vec![C::Qual { shape, min, max, disjoint: r.chance(1, 2) }];
            v.push(Shape { path: Some(path(r, 0)), cs, ..Default::default() });
        }
        for _ in 0..nv {
            let mut sh = Shape::default();
            if r.chance(1, 3) {
                sh.path = Some(path(r, 0));
            }
            sh.cs.push(simple(r, sh.path.is_some()));
            v.push(sh);
        }
        (Schema(v), g)
    });
}

fn num_or_lit(r: &mut Rng) -> T {
    match r.below(6) {
        0 | 1 => lit(r.pick(&["0", "1", "2", "10", "-1"]), "integer"),
        2 => lit(r.pick(&["1.5", "2.0", "0.5", "-0.5"]), "decimal"),
        3 => lit(r.pick(&["1.0", "2.5", "1.0E1"]), "double"),
        4 => lit(r.pick(&["a", "ab", "b"]), "string"),
        _ => literal(r),
    }
}
fn wgraph(r: &mut Rng, n: usize, edges: usize) -> Graph {
    let mut g = graph(r, n, edges, false);
    for _ in 0..r.below(5) {
        g.push((node(r, n), r.pick(&PREDS).to_string(), num_or_lit(r)));
    }
    g.sort();
    g.dedup();
    g
}

fn h14(ctx: &mut Ctx) {
    let n = ctx.n(6000, 30000);
    go(ctx, "ranges", "random graphs and shapes with sh:minLength/maxLength and sh:min/maxInclusive/Exclusive", n, |r| {
        let g = { let e = r.below(8); wgraph(r, 3, e) };
        let s = flat(r, 3, 0, &mut |r, _| {
            (0..1 + r.below(2)).map(|_| match r.below(8) {
                0 | 1 => C::MinLength(r.below(16)),
                2 | 3 => C::MaxLength(r.below(16)),
                4 => C::MinIncl(bound(r)),
                5 => C::MaxIncl(bound(r)),
                6 => C::MinExcl(bound(r)),
                _ => C::MaxExcl(bound(r)),
            }).collect()
        });
        (s, g)
    });
}
fn bound(r: &mut Rng) -> T {
    match r.below(4) {
        0 | 1 => lit(r.pick(&["0", "1", "2"]), "integer"),
        2 => lit(r.pick(&["1.5", "2.0"]), "decimal"),
        _ => lit(r.pick(&["1.0", "2.5"]), "double"),
    }
}

fn h15(ctx: &mut Ctx) {
    let n = ctx.n(6000, 30000);
    go(ctx, "pairs", "random graphs and property shapes with sh:equals, sh:disjoint, sh:lessThan, sh:lessThanOrEquals", n, |r| {
        let g = { let e = r.below(10); wgraph(r, 3, e) };
        let s = flat(r, 3, 0, &mut |r, p| {
            let q = r.pick(&PREDS).to_string();
            vec![match r.below(if p { 6 } else { 3 }) {
                0 | 1 => C::Equals(q),
                2 => C::Disjoint(q),
                3 => C::Disjoint(q),
                4 => C::LessThan(q),
                _ => C::LessThanEq(q),
            }]
        });
        (s, g)
    });
}

fn h16(ctx: &mut Ctx) {
    let n = ctx.n(6000, 30000);
    go(ctx, "values", "random graphs and shapes with sh:nodeKind, sh:in, sh:hasValue, sh:datatype, sh:class, sh:languageIn, sh:uniqueLang", n, |r| {
        let mut g = { let e = r.below(10); graph(r, 3, e, true) };
        if r.chance(1, 3) {
            for _ in 0..2 + r.below(5) {
                let (s, p) = (node(r, 1), if r.chance(3, 4) { "p".to_string() } else { r.pick(&PREDS).to_string() });
                g.push((s, p, lang(r.pick(&["a", "b", "c", "d"]), r.pick(&["en", "fr", "en-us"]))));
            }
            g.sort();
            g.dedup();
        }
        let s = flat(r, 3, 0, &mut |r, p| {
            (0..1 + r.below(2)).map(|_| match r.below(if p { 9 } else { 8 }) {
                0 => C::NodeKind(r.pick(&["IRI", "BlankNode", "Literal", "IRIOrLiteral", "BlankNodeOrIRI", "BlankNodeOrLiteral"])),
                1 => C::In((0..1 + r.below(3)).map(|_| if r.chance(1, 2) { node(r, 3) } else { literal(r) }).collect()),
                2 | 3 => C::HasValue(if r.chance(1, 2) { node(r, 3) } else { literal(r) }),
                4 => C::Datatype(r.pick(&["string", "integer", "decimal", "boolean", "double", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"]).to_string()),
                5 | 6 => C::Class(format!("C{}", r.below(4))),
                7 => C::LangIn((0..1 + r.below(2)).map(|_| r.pick(&["en", "fr", "en-US", "de"]).to_string()).collect()),
                _ => C::UniqueLang,
            }).collect()
        });
        (s, g)
    });
    let n = ctx.n(600, 6000);
    go(ctx, "closed", "random graphs and closed node shapes with 0..2 property shapes and ignored properties", n, |r| {
        let g = { let e = r.below(10); graph(r, 3, e, false) };
        let s = schema(r, 3, 3, 0, true, &mut |r, _, _, p| if p || r.chance(1, 4) { vec![C::MinCount(0)] } else { vec![C::Closed((0..r.below(3)).map(|_| r.pick(&PREDS).to_string()).collect())] });
        (s, g)
    });
}

fn h17(ctx: &mut Ctx) {
    let n = ctx.n(6000, 30000);
    go(ctx, "targets", "random graphs with classes and shapes with every kind of target (node, class, implicit class, subjects-of, objects-of)", n, |r| {
        let mut g = { let e = r.below(8); graph(r, 3, e, true) };
        let k = 1 + r.below(3);
        let mut v = vec![];
        for i in 0..k {
            let mut s = Shape::default();
            if r.chance(1, 3) {
                s.path = Some(path(r, 0));
            }
            for _ in 0..1 + r.below(3) {
                s.targets.push(match r.below(6) {
                    0 | 1 => target(r, 3),
                    2 | 3 => Target::Class(format!("C{}", r.below(4))),
                    4 if s.path.is_none() => Target::Implicit,
                    _ => Target::SubjectsOf(r.pick(&PREDS).to_string()),
                });
            }
            if s.targets.iter().any(|t| matches!(t, Target::Implicit)) {
                g.push((node(r, 3), TYPE.into(), iri(&format!("S{i}"))));
                if r.chance(1, 2) {
                    g.push((iri(&format!("C{}", r.below(4))), SUBC.into(), iri(&format!("S{i}"))));
                }
            }
            s.cs.push(C::HasValue(iri("nowhere")));
            s.deactivated = r.chance(1, 6);
            v.push(s);
        }
        g.sort();
        g.dedup();
        (Schema(v), g)
    });
}

fn h18(ctx: &mut Ctx) {
    let n = ctx.n(6000, 30000);
    go(ctx, "engine", "acyclic schemas of 3..6 shapes with nested sh:property and sh:node, shared shapes, several targets, deactivated shapes, reifier shapes over reified triples", n, |r| {
        let g = { let e = 2 + r.below(10); graph(r, 3, e, false) };
        let k = 3 + r.below(4);
        let mut s = schema(r, 3, k, 0, true, &mut |r, i, k, p| {
            let mut v = vec![];
            if i + 1 < k && r.chance(2, 3) {
                let l = refs(r, i, k);
                match r.below(9) {
                    0 => v.push(C::Not(l[0])),
                    1 => v.push(C::Or(l)),
                    2 => v.push(C::And(l)),
                    3 => v.push(C::Xone(l)),
                    4 if p => v.push(C::Qual { shape: l[0], min: if r.chance(1, 2) { Some(r.below(2)) } else { None }, max: Some(r.below(3)), disjoint: false }),
                    _ => v.push(C::Node(l[0])),
                }
            }
            if v.is_empty() || r.chance(1, 3) {
                v.push(simple(r, p))
            }
            v
        });
        for x in s.0.iter_mut() {
            x.deactivated = r.chance(1, 8);
        }
        let mut g = g;
        if r.chance(1, 2) {
            for i in 0..k.saturating_sub(1) {
                if matches!(s.0[i].path, Some(Path::P(_))) && r.chance(1, 2) {
                    let mut v = refs(r, i, k);
                    v.sort();
                    v.dedup();
                    s.0[i].reif = Some((r.chance(1, 2), v));
                }
            }
            for t in g.clone() {
                for _ in 0..r.below(3) {
                    g.push((node(r, 3), REIFIES.into(), T::Q(Box::new(t.clone()))));
                }
            }
            g.sort();
            g.dedup();
        }
        (s, g)
    });
}

fn h19(ctx: &mut Ctx) {
    let n = ctx.n(6000, 30000);
    go(ctx, "paths", "random graphs and property shapes with random paths (inverse, sequence, alternative, *, +, ?) of depth up to 2", n, |r| {
        let g = { let e = r.below(9); graph(r, 3, e, false) };
        let s = flat(r, 3, 2, &mut |r, p| vec![if p && r.chance(1, 3) { C::MaxCount(r.below(3)) } else { C::In(vec![node(r, 3), iri("other")]) }]);
        (s, g)
    });
}

fn main() {
    vh::main(&[
        ("H12", h12), ("H13", h13), ("H14", h14), ("H15", h15), ("H16", h16), ("H17", h17), ("H18", h18), ("H19", h19),
    ]);
}
