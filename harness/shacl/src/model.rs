//! Independent reference semantics of SHACL Core over a tiny RDF model (written from the W3C recommendation).
use std::collections::{BTreeMap, BTreeSet};

pub const NS: &str = "http://e.org/";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    I(String),
    B(String),
    L { lex: String, dt: String, lang: String },
    /// a triple term
    Q(Box<(T, String, T)>),
}
pub fn iri(s: &str) -> T {
    T::I(s.to_string())
}
pub fn lit(lex: &str, dt: &str) -> T {
    T::L { lex: lex.into(), dt: dt.into(), lang: String::new() }
}
pub fn lang(lex: &str, l: &str) -> T {
    T::L { lex: lex.into(), dt: String::new(), lang: l.into() }
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")
}
impl T {
    pub fn ttl(&self) -> String {
        match self {
            T::I(s) => format!("<{}>", full(s)),
            T::B(b) => format!("_:{b}"),
            T::L { lex, dt, lang } if !lang.is_empty() => {
                let _ = dt;
                // tags are kept in lower case here and written with an upper-case region
                let (a, b) = lang.split_once('-').unwrap_or((lang, ""));
                format!("\"{}\"@{a}{}{}", esc(lex), if b.is_empty() { "" } else { "-" }, b.to_uppercase())
            }
            T::L { lex, dt, .. } => format!("\"{}\"^^<{XSD}{dt}>", esc(lex)),
            T::Q(t) => format!("<<( {} <{}> {} )>>", t.0.ttl(), full(&t.1), t.2.ttl()),
        }
    }
    pub fn is_lit(&self) -> bool {
        matches!(self, T::L { .. })
    }
    /// normal form used when reports are compared
    pub fn key(&self) -> String {
        match self {
            T::I(s) => full(s),
            T::B(_) => "_:".into(),
            T::Q(t) => format!("<<{} {} {}>>", t.0.key(), t.1, t.2.key()),
            T::L { lex, dt, lang } => {
                if lang.is_empty() {
                    format!("\"{lex}\"^^{dt}")
                } else {
                    format!("\"{lex}\"@{lang}")
                }
            }
        }
    }
}
pub fn full(s: &str) -> String {
    if s.contains(':') { s.to_string() } else { format!("{NS}{s}") }
}

pub type Graph = Vec<(T, String, T)>;
pub const TYPE: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type";
pub const REIFIES: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#reifies";
pub const SUBC: &str = "http://www.w3.org/2000/01/rdf-schema#subClassOf";

pub fn graph_ttl(g: &Graph) -> String {
    g.iter().map(|(s, p, o)| format!("{} <{}> {} .\n", s.ttl(), full(p), o.ttl())).collect()
}

#[derive(Clone, Debug)]
pub enum Path {
    P(String),
    Inv(Box<Path>),
    Seq(Vec<Path>),
    Alt(Vec<Path>),
    Star(Box<Path>),
    Plus(Box<Path>),
    Opt(Box<Path>),
}
impl Path {
    pub fn ttl(&self) -> String {
        match self {
            Path::P(p) => format!("<{}>", full(p)),
            Path::Inv(p) => format!("[ sh:inversePath {} ]", p.ttl()),
            Path::Seq(v) => format!("( {} )", v.iter().map(|p| p.ttl()).collect::<Vec<_>>().join(" ")),
            Path::Alt(v) => format!("[ sh:alternativePath ( {} ) ]", v.iter().map(|p| p.ttl()).collect::<Vec<_>>().join(" ")),
            Path::Star(p) => format!("[ sh:zeroOrMorePath {} ]", p.ttl()),
            Path::Plus(p) => format!("[ sh:oneOrMorePath {} ]", p.ttl()),
            Path::Opt(p) => format!("[ sh:zeroOrOnePath {} ]", p.ttl()),
        }
    }
    fn closure(&self, g: &Graph, start: BTreeSet<T>) -> BTreeSet<T> {
        let mut all = start;
        loop {
            let mut next = all.clone();
            for x in &all {
                next.extend(self.eval(g, x));
            }
            if next.len() == all.len() {
                return all;
            }
            all = next;
        }
    }
    pub fn eval(&self, g: &Graph, n: &T) -> BTreeSet<T> {
        match self {
            Path::P(p) => g.iter().filter(|(s, q, _)| s == n && q == p).map(|x| x.2.clone()).collect(),
            Path::Inv(p) => {
                let mut nodes: BTreeSet<T> = g.iter().flat_map(|(s, _, o)| [s.clone(), o.clone()]).collect();
                nodes.insert(n.clone());
                nodes.into_iter().filter(|m| p.eval(g, m).contains(n)).collect()
            }
            Path::Seq(v) => {
                let mut cur = BTreeSet::from([n.clone()]);
                for p in v {
                    cur = cur.iter().flat_map(|x| p.eval(g, x)).collect();
                }
                cur
            }
            Path::Alt(v) => v.iter().flat_map(|p| p.eval(g, n)).collect(),
            Path::Star(p) => p.closure(g, BTreeSet::from([n.clone()])),
            Path::Plus(p) => p.closure(g, p.eval(g, n)),
            Path::Opt(p) => {
                let mut r = p.eval(g, n);
                r.insert(n.clone());
                r
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Target {
    Node(T),
    Class(String),
    SubjectsOf(String),
    ObjectsOf(String),
    /// the shape is itself declared a class
    Implicit,
}

#[derive(Clone, Debug)]
pub enum C {
    MinCount(usize),
    MaxCount(usize),
    And(Vec<usize>),
    Or(Vec<usize>),
    Xone(Vec<usize>),
    Not(usize),
    Node(usize),
    Qual { shape: usize, min: Option<usize>, max: Option<usize>, disjoint: bool },
    MinLength(usize),
    MaxLength(usize),
    MinIncl(T),
    MaxIncl(T),
    MinExcl(T),
    MaxExcl(T),
    Equals(String),
    Disjoint(String),
    LessThan(String),
    LessThanEq(String),
    Class(String),
    Datatype(String),
    NodeKind(&'static str),
    HasValue(T),
    In(Vec<T>),
    LangIn(Vec<String>),
    UniqueLang,
    Closed(Vec<String>),
}

#[derive(Clone, Debug, Default)]
pub struct Shape {
    pub path: Option<Path>,
    pub targets: Vec<Target>,
    pub cs: Vec<C>,
    pub props: Vec<usize>,
    /// reification required, reifier shapes (property shapes with a predicate path)
    pub reif: Option<(bool, Vec<usize>)>,
    pub deactivated: bool,
    pub severity: Option<&'static str>,
}

pub struct Schema(pub Vec<Shape>);

fn lst(v: &[usize]) -> String {
    format!("( {} )", v.iter().map(|i| format!(":S{i}")).collect::<Vec<_>>().join(" "))
}

impl Schema {
    pub fn ttl(&self) -> String {
        let mut o = format!("@prefix sh: <http://www.w3.org/ns/shacl#> .\n@prefix : <{NS}> .\n@prefix rdfs: <http://www.w3.org/2000/01/rdf-schema#> .\n");
        for (i, s) in self.0.iter().enumerate() {
            // a shape with a target, or that another shape mentions, needs no type
            let used = self.0.iter().any(|x| {
                x.props.contains(&i)
                    || x.reif.as_ref().is_some_and(|(_, v)| v.contains(&i))
                    || x.cs.iter().any(|c| match c {
                        C::And(v) | C::Or(v) | C::Xone(v) => v.contains(&i),
                        C::Not(n) | C::Node(n) => *n == i,
                        C::Qual { shape, .. } => *shape == i,
                        _ => false,
                    })
            });
            let targeted = s.targets.iter().any(|t| !matches!(t, Target::Implicit)) && s.targets.iter().all(|t| !matches!(t, Target::Implicit));
            let implicit = s.targets.iter().any(|t| matches!(t, Target::Implicit));
            if (used || targeted) && !implicit && (i + s.cs.len()) % 2 == 0 {
                o += &format!(":S{i} sh:name \"s\"");
            } else {
            o += &format!(":S{i} a sh:{}", if s.path.is_some() { "PropertyShape" } else { "NodeShape" });
            }
            for t in &s.targets {
                if let Target::Implicit = t {
                    o += ", rdfs:Class"
                }
            }
            let mut a = |x: String| o += &format!(" ;\n  {x}");
            if let Some(p) = &s.path {
                a(format!("sh:path {}", p.ttl()))
            }
            for t in &s.targets {
                match t {
                    Target::Node(n) => a(format!("sh:targetNode {}", n.ttl())),
                    Target::Class(n) => a(format!("sh:targetClass :{n}")),
                    Target::SubjectsOf(n) => a(format!("sh:targetSubjectsOf :{n}")),
                    Target::ObjectsOf(n) => a(format!("sh:targetObjectsOf :{n}")),
                    Target::Implicit => {}
                }
            }
            for c in &s.cs {
                match c {
                    C::MinCount(n) => a(format!("sh:minCount {n}")),
                    C::MaxCount(n) => a(format!("sh:maxCount {n}")),
                    C::And(v) => a(format!("sh:and {}", lst(v))),
                    C::Or(v) => a(format!("sh:or {}", lst(v))),
                    C::Xone(v) => a(format!("sh:xone {}", lst(v))),
                    C::Not(n) => a(format!("sh:not :S{n}")),
                    C::Node(n) => a(format!("sh:node :S{n}")),
                    C::Qual { shape, min, max, disjoint } => {
                        a(format!("sh:qualifiedValueShape :S{shape}"));
                        if let Some(m) = min {
                            a(format!("sh:qualifiedMinCount {m}"))
                        }
                        if let Some(m) = max {
                            a(format!("sh:qualifiedMaxCount {m}"))
                        }
                        if *disjoint {
                            a("sh:qualifiedValueShapesDisjoint true".into())
                        }
                    }
                    C::MinLength(n) => a(format!("sh:minLength {n}")),
                    C::MaxLength(n) => a(format!("sh:maxLength {n}")),
                    C::MinIncl(t) => a(format!("sh:minInclusive {}", t.ttl())),
                    C::MaxIncl(t) => a(format!("sh:maxInclusive {}", t.ttl())),
                    C::MinExcl(t) => a(format!("sh:minExclusive {}", t.ttl())),
                    C::MaxExcl(t) => a(format!("sh:maxExclusive {}", t.ttl())),
                    C::Equals(p) => a(format!("sh:equals :{p}")),
                    C::Disjoint(p) => a(format!("sh:disjoint :{p}")),
                    C::LessThan(p) => a(format!("sh:lessThan :{p}")),
                    C::LessThanEq(p) => a(format!("sh:lessThanOrEquals :{p}")),
                    C::Class(p) => a(format!("sh:class :{p}")),
                    C::Datatype(p) => a(format!("sh:datatype <{}>", if p.contains(':') { p.clone() } else { format!("{XSD}{p}") })),
                    C::NodeKind(k) => a(format!("sh:nodeKind sh:{k}")),
                    C::HasValue(t) => a(format!("sh:hasValue {}", t.ttl())),
                    C::In(v) => a(format!("sh:in ( {} )", v.iter().map(|t| t.ttl()).collect::<Vec<_>>().join(" "))),
                    C::LangIn(v) => a(format!("sh:languageIn ( {} )", v.iter().map(|t| format!("\"{t}\"")).collect::<Vec<_>>().join(" "))),
                    C::UniqueLang => a("sh:uniqueLang true".into()),
                    C::Closed(v) => {
                        a("sh:closed true".into());
                        if !v.is_empty() {
                            a(format!("sh:ignoredProperties ( {} )", v.iter().map(|t| format!(":{t}")).collect::<Vec<_>>().join(" ")))
                        }
                    }
                }
            }
            for p in &s.props {
                a(format!("sh:property :S{p}"))
            }
            if let Some((q, v)) = &s.reif {
                if *q {
                    a("sh:reificationRequired true".into())
                }
                for p in v {
                    a(format!("sh:reifierShape :S{p}"))
                }
            }
            if s.deactivated {
                a("sh:deactivated true".into())
            }
            if let Some(v) = s.severity {
                a(format!("sh:severity sh:{v}"))
            }
            o += " .\n";
        }
        o
    }
}

/// numeric value of a well-formed numeric literal, scaled by 100 (the generators use at most two decimals)
fn num(t: &T) -> Option<i64> {
    let T::L { lex, dt, lang } = t else { return None };
    if !lang.is_empty() || !["integer", "decimal", "double"].contains(&dt.as_str()) {
        return None;
    }
    if dt == "integer" && lex.contains('.') {
        return None;
    }
    let f: f64 = lex.parse().ok()?;
    Some((f * 100.0).round() as i64)
}
pub fn ill_typed(t: &T) -> bool {
    let T::L { lex, dt, .. } = t else { return false };
    match dt.as_str() {
        "integer" => lex.parse::<i64>().is_err(),
        "decimal" | "double" => lex.parse::<f64>().is_err(),
        "boolean" => !["true", "false", "0", "1"].contains(&lex.as_str()),
        _ => false,
    }
}
/// SPARQL `<` on the literals the generators make: numeric by value, plain strings by codepoint, else incomparable
pub fn cmp(a: &T, b: &T) -> Option<std::cmp::Ordering> {
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return Some(x.cmp(&y));
    }
    match (a, b) {
        (T::L { lex: x, dt: d, lang: l }, T::L { lex: y, dt: e, lang: m }) if d == "string" && e == "string" && l.is_empty() && m.is_empty() => Some(x.cmp(y)),
        (T::L { lex: x, dt: d, .. }, T::L { lex: y, dt: e, .. }) if d == "boolean" && e == "boolean" => Some(x.cmp(y)),
        _ => None,
    }
}

pub type Res = (String, String, String, String); // source shape, focus, component, value

pub fn instances(g: &Graph, class: &str) -> BTreeSet<T> {
    let c = iri(class);
    let sub = Path::Seq(vec![Path::P(TYPE.into()), Path::Star(Box::new(Path::P(SUBC.into())))]);
    let nodes: BTreeSet<T> = g.iter().map(|x| x.0.clone()).collect();
    nodes.into_iter().filter(|n| sub.eval(g, n).contains(&c)).collect()
}

impl Schema {
    pub fn conforms(&self, g: &Graph, i: usize, n: &T) -> bool {
        self.validate(g, i, n).is_empty()
    }
    pub fn targets(&self, g: &Graph, i: usize) -> BTreeSet<T> {
        let mut f = BTreeSet::new();
        for t in &self.0[i].targets {
            match t {
                Target::Node(n) => {
                    f.insert(n.clone());
                }
                Target::Class(c) => f.extend(instances(g, c)),
                Target::Implicit => f.extend(instances(g, &format!("S{i}"))),
                Target::SubjectsOf(p) => f.extend(g.iter().filter(|x| &x.1 == p).map(|x| x.0.clone())),
                Target::ObjectsOf(p) => f.extend(g.iter().filter(|x| &x.1 == p).map(|x| x.2.clone())),
            }
        }
        f
    }
    pub fn report(&self, g: &Graph) -> BTreeMap<Res, usize> {
        let mut m = BTreeMap::new();
        for i in 0..self.0.len() {
            for n in self.targets(g, i) {
                for r in self.validate(g, i, &n) {
                    *m.entry(r).or_insert(0) += 1;
                }
            }
        }
        m
    }
    /// sh:qualifiedValueShapesDisjoint: the qualified value shapes of the sibling property shapes
    fn siblings(&self, i: usize, qs: usize) -> Vec<usize> {
        let mut v = vec![];
        for s in &self.0 {
            if s.props.contains(&i) {
                for p in &s.props {
                    for c in &self.0[*p].cs {
                        if let C::Qual { shape, .. } = c {
                            if *shape != qs {
                                v.push(*shape)
                            }
                        }
                    }
                }
            }
        }
        v
    }
    pub fn validate(&self, g: &Graph, i: usize, n: &T) -> Vec<Res> {
        let s = &self.0[i];
        let mut out = vec![];
        if s.deactivated {
            return out;
        }
        let vals: BTreeSet<T> = match &s.path {
            None => BTreeSet::from([n.clone()]),
            Some(p) => p.eval(g, n),
        };
        let src = full(&format!("S{i}"));
        let mut add = |comp: &str, v: Option<&T>| out.push((src.clone(), n.key(), comp.to_string(), v.map(|v| v.key()).unwrap_or_default()));
        for c in &s.cs {
            match c {
                C::MinCount(k) => {
                    if vals.len() < *k {
                        add("MinCountConstraintComponent", None)
                    }
                }
                C::MaxCount(k) => {
                    if vals.len() > *k {
                        add("MaxCountConstraintComponent", None)
                    }
                }
                C::HasValue(t) => {
                    if !vals.contains(t) {
                        add("HasValueConstraintComponent", None)
                    }
                }
                C::UniqueLang => {
                    let mut by: BTreeMap<String, usize> = BTreeMap::new();
                    for v in &vals {
                        if let T::L { lang, .. } = v {
                            if !lang.is_empty() {
                                *by.entry(lang.to_lowercase()).or_insert(0) += 1;
                            }
                        }
                    }
                    for (_, k) in by {
                        if k > 1 {
                            add("UniqueLangConstraintComponent", None)
                        }
                    }
                }
                C::Qual { shape, min, max, disjoint } => {
                    let sib = if *disjoint { self.siblings(i, *shape) } else { vec![] };
                    let k = vals.iter().filter(|v| self.conforms(g, *shape, v) && !sib.iter().any(|x| self.conforms(g, *x, v))).count();
                    if min.is_some_and(|m| k < m) {
                        add("QualifiedMinCountConstraintComponent", None)
                    }
                    if max.is_some_and(|m| k > m) {
                        add("QualifiedMaxCountConstraintComponent", None)
                    }
                }
                C::Equals(p) => {
                    let other = Path::P(p.clone()).eval(g, n);
                    for v in vals.symmetric_difference(&other) {
                        add("EqualsConstraintComponent", Some(v))
                    }
                }
                C::Disjoint(p) => {
                    let other = Path::P(p.clone()).eval(g, n);
                    for v in vals.intersection(&other) {
                        add("DisjointConstraintComponent", Some(v))
                    }
                }
                C::LessThan(p) | C::LessThanEq(p) => {
                    let other = Path::P(p.clone()).eval(g, n);
                    for v in &vals {
                        for o in &other {
                            let ok = match (cmp(v, o), c) {
                                (Some(x), C::LessThan(_)) => x.is_lt(),
                                (Some(x), _) => x.is_le(),
                                (None, _) => false,
                            };
                            if !ok {
                                add(if matches!(c, C::LessThan(_)) { "LessThanConstraintComponent" } else { "LessThanOrEqualsConstraintComponent" }, Some(v))
                            }
                        }
                    }
                }
                C::Closed(ign) => {
                    let mut allowed: BTreeSet<String> = ign.iter().cloned().collect();
                    for p in &s.props {
                        if let Some(Path::P(q)) = &self.0[*p].path {
                            allowed.insert(q.clone());
                        }
                    }
                    for v in &vals {
                        for (x, p, o) in g {
                            if x == v && !allowed.contains(p) {
                                add("ClosedConstraintComponent", Some(o))
                            }
                        }
                    }
                }
                _ => {
                    for v in &vals {
                        let (comp, ok) = match c {
                            C::And(l) => ("AndConstraintComponent", l.iter().all(|x| self.conforms(g, *x, v))),
                            C::Or(l) => ("OrConstraintComponent", l.iter().any(|x| self.conforms(g, *x, v))),
                            C::Xone(l) => ("XoneConstraintComponent", l.iter().filter(|x| self.conforms(g, **x, v)).count() == 1),
                            C::Not(x) => ("NotConstraintComponent", !self.conforms(g, *x, v)),
                            C::Node(x) => ("NodeConstraintComponent", self.conforms(g, *x, v)),
                            C::MinLength(k) => ("MinLengthConstraintComponent", strlen(v).is_some_and(|l| l >= *k)),
                            C::MaxLength(k) => ("MaxLengthConstraintComponent", strlen(v).is_some_and(|l| l <= *k)),
                            C::MinIncl(t) => ("MinInclusiveConstraintComponent", cmp(v, t).is_some_and(|o| o.is_ge())),
                            C::MaxIncl(t) => ("MaxInclusiveConstraintComponent", cmp(v, t).is_some_and(|o| o.is_le())),
                            C::MinExcl(t) => ("MinExclusiveConstraintComponent", cmp(v, t).is_some_and(|o| o.is_gt())),
                            C::MaxExcl(t) => ("MaxExclusiveConstraintComponent", cmp(v, t).is_some_and(|o| o.is_lt())),
                            C::Class(k) => ("ClassConstraintComponent", instances(g, k).contains(v)),
                            C::Datatype(d) => (
                                "DatatypeConstraintComponent",
                                match v {
                                    T::L { dt, lang, .. } => (if lang.is_empty() { dt == d } else { d.ends_with("langString") }) && !ill_typed(v),
                                    _ => false,
                                },
                            ),
                            C::NodeKind(k) => (
                                "NodeKindConstraintComponent",
                                match v {
                                    T::I(_) => k.contains("IRI"),
                                    T::B(_) => k.contains("Blank"),
                                    T::L { .. } => k.contains("Literal"),
                                    T::Q(_) => false,
                                },
                            ),
                            C::In(l) => ("InConstraintComponent", l.contains(v)),
                            C::LangIn(l) => (
                                "LanguageInConstraintComponent",
                                match v {
                                    T::L { lang, .. } if !lang.is_empty() => l.iter().any(|r| {
                                        let (x, r) = (lang.to_lowercase(), r.to_lowercase());
                                        x == r || x.starts_with(&(r + "-"))
                                    }),
                                    _ => false,
                                },
                            ),
                            _ => unreachable!(),
                        };
                        if !ok {
                            add(comp, Some(v))
                        }
                    }
                }
            }
        }
        for p in &s.props {
            for v in &vals {
                out.extend(self.validate(g, *p, v))
            }
        }
        if let (Some((q, l)), Some(Path::P(p))) = (&s.reif, &s.path) {
            for t in g.iter().filter(|t| &t.0 == n && &t.1 == p) {
                let rs: BTreeSet<T> = g.iter().filter(|x| x.1 == REIFIES && x.2 == T::Q(Box::new(t.clone()))).map(|x| x.0.clone()).collect();
                for i in l {
                    if rs.is_empty() && *q {
                        out.push((src.clone(), n.key(), "ReifierShapeConstraintComponent".into(), String::new()));
                    }
                    for r in &rs {
                        out.extend(self.validate(g, *i, r))
                    }
                }
            }
        }
        out
    }
}

fn strlen(t: &T) -> Option<usize> {
    match t {
        T::I(s) => Some(full(s).chars().count()),
        T::B(_) | T::Q(_) => None,
        T::L { lex, .. } => Some(lex.chars().count()),
    }
}
