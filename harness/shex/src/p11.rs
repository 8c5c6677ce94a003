//! Prefix maps: prefixed names denote namespace ++ local name, and qualified names denote the IRI they stand for.
use crate::{NS, compile_ast};
use prefixmap::{IriRef, PrefixMap};
use rudof_iri::IriS;
use rudof_rdf::rdf_core::NeighsRDF;
use rudof_rdf::rdf_core::RDFFormat;
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use shex_ast::Node;
use shex_ast::compact::ShExParser;
use shex_ast::ir::shape_label::ShapeLabel;
use shex_validation::{Validator, ValidatorConfig};
use sparql_service::RdfData;
use vh::{Ctx, Rng};

const ALIASES: [&str; 6] = ["", "a", "b", "ab", "a.b", "x-1"];
const NSS: [&str; 9] = [
    "http://e.org/", "http://e.org/a", "http://e.org/a/", "http://e.org/a#", "http://e.org/a_", "urn:v:", "http://e.org/é/", "http://e.org/?q=", "http://e.org/x",
];
const LOCALS: [&str; 12] = ["", "a", "b", "a:b", ":", "a.b", "_x", "1", "a-b", "é", "%41", "ab"];

type Map = Vec<(&'static str, &'static str)>;
fn map(r: &mut Rng) -> Map {
    let n = r.below(5);
    (0..n).map(|_| (*r.pick(&ALIASES), *r.pick(&NSS))).collect()
}
/// the declaration in force
fn ns(m: &Map, alias: &str) -> Option<&'static str> {
    m.iter().rev().find(|d| d.0 == alias).map(|d| d.1)
}
fn same(what: String, got: Option<String>, want: Option<String>) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} gives {got:?}, expected {want:?}")) }
}
fn text(i: Result<IriS, impl std::fmt::Display>) -> Option<String> {
    i.ok().map(|i| i.as_str().to_string())
}

fn names(m: &Map, alias: &str, local: &str, iri: &str) -> Result<(), String> {
    let mut pm = PrefixMap::new();
    let (a, b) = m.split_at(m.len() / 2);
    for (k, v) in a {
        pm.add_prefix(k, IriS::new_unchecked(v));
    }
    let mut other = PrefixMap::new();
    for (k, v) in b {
        other.add_prefix(k, IriS::new_unchecked(v));
    }
    pm.merge(other);
    let want = ns(m, alias).map(|n| format!("{n}{local}"));
    same(format!("prefix {alias}: is"), pm.find(alias).map(|i| i.as_str().to_string()), ns(m, alias).map(|n| n.to_string()))?;
    same(format!("resolve_prefix_local({alias:?}, {local:?})"), text(pm.resolve_prefix_local(alias, local)), want.clone())?;
    same(format!("resolve({alias}:{local})"), text(pm.resolve(&format!("{alias}:{local}"))), want.clone())?;
    let r = IriRef::prefixed(alias, local);
    same(format!("resolve_iriref({r})"), text(pm.resolve_iriref(r.clone())), want.clone())?;
    same(format!("get_iri_prefixmap({r})"), r.get_iri_prefixmap(&pm).ok().map(|i| i.as_str().to_string()), want.clone())?;
    // the longest matching namespace
    let best = ALIASES.iter().filter_map(|a| ns(m, a)).filter(|n| iri.starts_with(n)).map(|n| n.len()).max();
    let i = IriS::new_unchecked(iri);
    let plain = pm.clone().without_rich_qualifying();
    let q = plain.qualify_optional(&i);
    let names: Vec<String> = match best {
        Some(k) => ALIASES.iter().filter(|a| ns(m, a).is_some_and(|n| n.len() == k && iri.starts_with(n))).map(|a| format!("{a}:{}", &iri[k..])).collect(),
        None => vec![],
    };
    match &q {
        None if best.is_some() => return Err(format!("qualify_optional({iri}) finds no prefix, expected {names:?}")),
        Some(s) if !names.contains(s) => return Err(format!("qualify_optional({iri}) is {s}, expected {names:?}")),
        _ => (),
    }
    let full = q.clone().unwrap_or(format!("<{iri}>"));
    same(format!("qualify({iri})"), Some(plain.qualify(&i)), Some(full.clone()))?;
    let (s, l) = plain.qualify_and_length(&i);
    same(format!("qualify_and_length({iri})"), Some(s), Some(full.clone()))?;
    same(format!("length of qualify({iri})"), Some(l.to_string()), Some(full.len().to_string()))?;
    same(format!("qualify_local({iri})"), plain.qualify_local(&i), best.map(|k| iri[k..].to_string()))?;
    if let Some(s) = q {
        same(format!("resolve({s}), qualified from {iri},"), text(pm.resolve(&s)), Some(iri.to_string()))?;
    }
    Ok(())
}

/// a local name as ShEx compact syntax and Turtle write it, and what it stands for
const WRITTEN: [(&str, &str); 16] = [
    ("a", "a"), ("ab1", "ab1"), ("a:b", "a:b"), (":a", ":a"), ("a.b", "a.b"), ("a-b", "a-b"), ("_a", "_a"), ("1a", "1a"), ("%41b", "%41b"), ("a\\,b", "a,b"),
    ("\\~a", "~a"), ("a\\/b", "a/b"), ("a\\.b", "a.b"), ("é", "é"), ("", ""), ("a\\!b", "a!b"),
];
fn schema(m: &Map, alias: &str, written: &str, meant: &str, place: usize) -> Result<(), String> {
    let mut src = String::new();
    for (k, v) in m {
        src.push_str(&format!("PREFIX {k}: <{v}>\n"));
    }
    let n = format!("{alias}:{written}");
    let (s, p, o) = ("http://s.org/S", "http://s.org/p", "http://s.org/o");
    src.push_str(&match place {
        0 => format!("<{s}> {{ {n} . }}\n"),
        1 => format!("<{s}> {{ <{p}> [ {n} ] }}\n"),
        2 => format!("<{s}> {{ <{p}> @{n} }}\n{n} {{ <{o}> . }}\n"),
        _ => format!("<{s}> {{ <{p}> [ {n}~ ] }}\n"),
    });
    let want = ns(m, alias).map(|n| format!("{n}{meant}"));
    let base = IriS::new_unchecked(NS);
    let ast = match ShExParser::parse(&src, None, &base) {
        Ok(a) => a,
        Err(e) => return if want.is_none() { Ok(()) } else { Err(format!("the schema does not parse: {e}\n{src}")) },
    };
    let ir = match compile_ast(&ast) {
        Ok(a) => a,
        Err(e) => return if want.is_none() { Ok(()) } else { Err(format!("{e}\n{src}")) },
    };
    let Some(want) = want else { return Err(format!("{n} is accepted although its prefix is not declared\n{src}")) };
    for (term, holds) in [(want.clone(), true), (format!("{want}Z"), place == 3), (format!("http://z.org/{meant}"), false)] {
        let data = match place {
            0 => format!("<http://n> <{term}> <{o}> .\n"),
            2 => format!("<http://n> <{p}> <{term}> . <{term}> <{o}> 1 .\n"),
            _ => format!("<http://n> <{p}> <{term}> .\n"),
        };
        let rdf = OxigraphInMemory::from_str(&data, &RDFFormat::Turtle, None, &ReaderMode::Strict).map_err(|e| format!("graph: {e}"))?;
        let rdf = RdfData::from_graph(rdf).map_err(|e| format!("graph: {e}"))?;
        let config = ValidatorConfig::default();
        let mut v = Validator::new(&ir, &config).map_err(|e| format!("validator: {e}"))?;
        // a label is used under its full name
        let (node, label) = match place {
            2 => (Node::parse(&term, None), ShapeLabel::iri(IriS::new_unchecked(&want))),
            _ => (Node::parse("http://n", None), ShapeLabel::iri(IriS::new_unchecked(s))),
        };
        let node = node.map_err(|e| format!("focus: {e}"))?;
        let holds = holds || place == 2;
        let r = v.validate_node_shape(&node, &label, &rdf, &ir, &None).map_err(|e| format!("validation fails: {e}\n{src}"))?;
        let got = r.get_info(&node, &label).ok_or("no result")?.is_conformant();
        if got != holds {
            return Err(format!("{n} stands for <{want}>, but with <{term}> in the data conformance is {got}, expected {holds}\n{src}{data}"));
        }
    }
    Ok(())
}
/// the same name in data and in the prefix map of the data
fn data(m: &Map, alias: &str, written: &str, meant: &str) -> Result<(), String> {
    let Some(n) = ns(m, alias) else { return Ok(()) };
    let mut src = String::new();
    for (k, v) in m {
        src.push_str(&format!("PREFIX {k}: <{v}>\n"));
    }
    src.push_str(&format!("<http://n> <http://p> {alias}:{written} .\n"));
    let rdf = OxigraphInMemory::from_str(&src, &RDFFormat::Turtle, None, &ReaderMode::Strict).map_err(|e| format!("graph: {e}\n{src}"))?;
    let want = format!("{n}{meant}");
    let o: Vec<String> = rdf.triples().map_err(|e| e.to_string())?.map(|t| t.object.to_string()).collect();
    same("the object of the triple".to_string(), o.first().cloned(), Some(format!("<{want}>")))?;
    use rudof_rdf::rdf_core::Rdf;
    same(format!("{alias}:{meant} in the data"), text(rdf.resolve_prefix_local(alias, meant)), Some(want.clone()))?;
    let all = RdfData::from_graph(rdf).map_err(|e| format!("graph: {e}"))?;
    same(format!("{alias}:{meant} in the loaded data"), text(all.resolve_prefix_local(alias, meant)), Some(want))
}

pub fn p11(ctx: &mut Ctx) {
    ctx.rule("names", "prefix maps of up to 4 declarations (redeclared and merged), names and IRIs over overlapping namespaces");
    for _ in 0..ctx.n(20000, 200000) {
        if ctx.stop() {
            break;
        }
        let r = &mut ctx.rng;
        let m = map(r);
        let (alias, local) = (*r.pick(&ALIASES), *r.pick(&LOCALS));
        let iri = format!("{}{}", r.pick(&NSS), r.pick(&LOCALS));
        ctx.case(!m.is_empty(), || format!("{m:?} name {alias}:{local} iri {iri}"), || names(&m, alias, local, &iri));
    }
    ctx.rule("schemas", "names with escapes, colons and dots as predicates, values, stems and shape labels of ShExC schemas");
    for _ in 0..ctx.n(1500, 15000) {
        if ctx.stop() {
            break;
        }
        let r = &mut ctx.rng;
        let m = map(r);
        let alias = *r.pick(&ALIASES);
        let (w, t) = *r.pick(&WRITTEN);
        let place = r.below(4);
        ctx.case(!m.is_empty(), || format!("{m:?} name {alias}:{w} in place {place}"), || schema(&m, alias, w, t, place));
    }
    ctx.rule("data", "the same names in Turtle data and its prefix map");
    for _ in 0..ctx.n(1000, 10000) {
        if ctx.stop() {
            break;
        }
        let r = &mut ctx.rng;
        let m = map(r);
        let alias = *r.pick(&ALIASES);
        let (w, t) = *r.pick(&WRITTEN);
        ctx.case(!m.is_empty(), || format!("{m:?} name {alias}:{w}"), || data(&m, alias, w, t));
    }
}
