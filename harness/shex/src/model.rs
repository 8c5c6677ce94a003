//! Independent reference semantics of ShEx 2.1 over a tiny RDF model (written from the ShEx specification, section 5).
use std::collections::{BTreeMap, BTreeSet};

pub const NS: &str = "http://e.org/";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    I(String),
    B(String),
    L { lex: String, dt: String, lang: String },
}
pub fn iri(s: &str) -> T {
    T::I(s.to_string())
}
pub fn lit(lex: &str, dt: &str) -> T {
    T::L { lex: lex.into(), dt: dt.into(), lang: String::new() }
}
pub fn lang(lex: &str, l: &str) -> T {
    T::L { lex: lex.into(), dt: String::new(), lang: l.into() }
}
pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")
}
pub fn full(s: &str) -> String {
    if s.contains(':') { s.to_string() } else { format!("{NS}{s}") }
}
impl T {
    pub fn ttl(&self) -> String {
        match self {
            T::I(s) => format!("<{}>", full(s)),
            T::B(b) => format!("_:{b}"),
            T::L { lex, lang, .. } if !lang.is_empty() => format!("\"{}\"@{lang}", esc(lex)),
            T::L { lex, dt, .. } => format!("\"{}\"^^<{XSD}{dt}>", esc(lex)),
        }
    }
    pub fn lexical(&self) -> String {
        match self {
            T::I(s) => full(s),
            T::B(b) => b.clone(),
            T::L { lex, .. } => lex.clone(),
        }
    }
    /// exact value of a numeric literal; None when not numeric or ill-typed
    pub fn num(&self) -> Option<Num> {
        let T::L { lex, dt, lang } = self else { return None };
        if !lang.is_empty() || !well_typed(lex, dt) {
            return None;
        }
        match dt.as_str() {
            "integer" | "decimal" | "long" | "unsignedByte" | "nonNegativeInteger" => Some(dec(lex, 0)),
            "double" => match lex.as_str() {
                "INF" | "+INF" => Some(Num::Inf(false)),
                "-INF" => Some(Num::Inf(true)),
                "NaN" => Some(Num::NaN),
                _ => {
                    let (m, e) = lex.split_once(['E', 'e']).unwrap_or((lex, "0"));
                    Some(dec(m, e.parse().ok()?))
                }
            },
            _ => None,
        }
    }
}
/// a number: sign, digits without leading zeros before the point, digits without trailing zeros after it
#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    Fin(bool, String, String),
    Inf(bool),
    NaN,
}
impl Num {
    pub fn cmp(&self, o: &Num) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        let mag = |a: &String, b: &String, c: &String, d: &String| a.len().cmp(&c.len()).then(a.cmp(c)).then(b.cmp(d));
        match (self, o) {
            (Num::NaN, _) | (_, Num::NaN) => None,
            (Num::Inf(a), Num::Inf(b)) => Some(b.cmp(a)),
            (Num::Inf(n), _) => Some(if *n { Less } else { Greater }),
            (_, Num::Inf(n)) => Some(if *n { Greater } else { Less }),
            (Num::Fin(x, a, b), Num::Fin(y, c, d)) => Some(match (x, y) {
                (false, true) => Greater,
                (true, false) => Less,
                (false, false) => mag(a, b, c, d),
                (true, true) => mag(c, d, a, b),
            }),
        }
    }
}
fn dec(s: &str, e: i32) -> Num {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (a, b) = t.split_once('.').unwrap_or((t, ""));
    let (mut a, mut b) = (a.to_string(), b.to_string());
    for _ in 0..e.max(0) {
        a.push(if b.is_empty() { '0' } else { b.remove(0) })
    }
    for _ in 0..(-e).max(0) {
        b.insert(0, a.pop().unwrap_or('0'))
    }
    let (a, b) = (a.trim_start_matches('0').to_string(), b.trim_end_matches('0').to_string());
    Num::Fin(neg && !(a.is_empty() && b.is_empty()), a, b)
}
pub fn well_typed(lex: &str, dt: &str) -> bool {
    let body = lex.strip_prefix(['-', '+']).unwrap_or(lex);
    let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    let isdec = |b: &str| match b.split_once('.') {
        Some((a, f)) => (a.is_empty() || digits(a)) && (f.is_empty() || digits(f)) && !(a.is_empty() && f.is_empty()),
        None => digits(b),
    };
    match dt {
        "integer" | "long" => digits(body),
        "unsignedByte" => digits(body) && (0..256).contains(&lex.parse::<i64>().unwrap_or(-1)),
        "nonNegativeInteger" => digits(body) && !(lex.starts_with('-')),
        "decimal" => isdec(body),
        "double" => match body.split_once(['E', 'e']) {
            Some((m, e)) => isdec(m) && digits(e.strip_prefix(['-', '+']).unwrap_or(e)),
            None => isdec(body) || body == "INF" || lex == "NaN",
        },
        "boolean" => matches!(lex, "true" | "false" | "0" | "1"),
        _ => true,
    }
}

pub type Graph = Vec<(T, String, T)>;
pub fn graph_ttl(g: &Graph) -> String {
    g.iter().map(|(s, p, o)| format!("{} <{}> {} .\n", s.ttl(), full(p), o.ttl())).collect()
}

// ---------- node constraints ----------
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Iri,
    Bnode,
    Literal,
    NonLiteral,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    V(T),
    Stem(String),
    LangTag(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Obj(T),
    Lang(String),
    IriStem(String),
    LitStem(String),
    LangStem(String),
    IriRange(Option<String>, Vec<Ex>),
    LitRange(Option<String>, Vec<Ex>),
    LangRange(Option<String>, Vec<Ex>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Len(usize),
    MinLen(usize),
    MaxLen(usize),
    Pat(String),
    MinI(T),
    MinE(T),
    MaxI(T),
    MaxE(T),
    Total(usize),
    Frac(usize),
}
#[derive(Clone, Debug, Default)]
pub struct Nc {
    pub kind: Option<Kind>,
    pub dt: Option<String>,
    pub facets: Vec<F>,
    pub vals: Option<Vec<V>>,
}
fn lang_match(tag: &str, stem: &str) -> bool {
    // tags compare without regard to case
    let (tag, stem) = (tag.to_lowercase(), stem.to_lowercase());
    stem.is_empty() || tag == stem || tag.strip_prefix(&stem).is_some_and(|r| r.starts_with('-'))
}
fn is_iri(t: &T, p: &str) -> bool {
    matches!(t, T::I(s) if full(s).starts_with(&full(p)))
}
fn is_lit(t: &T, p: &str) -> bool {
    matches!(t, T::L { lex, .. } if lex.starts_with(p))
}
fn tag(t: &T) -> Option<&str> {
    match t {
        T::L { lang, .. } if !lang.is_empty() => Some(lang),
        _ => None,
    }
}
impl V {
    pub fn has(&self, t: &T) -> bool {
        match self {
            V::Obj(o) => o == t || (tag(t).is_some_and(|a| tag(o).is_some_and(|b| a.eq_ignore_ascii_case(b))) && o.lexical() == t.lexical()),
            V::Lang(l) => tag(t).is_some_and(|g| g.eq_ignore_ascii_case(l)),
            V::IriStem(s) => is_iri(t, s),
            V::LitStem(s) => is_lit(t, s),
            V::LangStem(s) => tag(t).is_some_and(|g| lang_match(g, s)),
            V::IriRange(s, ex) => {
                s.as_ref().is_none_or(|s| is_iri(t, s))
                    && !ex.iter().any(|e| match e {
                        Ex::V(v) => v == t,
                        Ex::Stem(s) => is_iri(t, s),
                        Ex::LangTag(_) => false,
                    })
            }
            V::LitRange(s, ex) => {
                s.as_ref().is_none_or(|s| is_lit(t, s))
                    && !ex.iter().any(|e| match e {
                        Ex::V(v) => t.lexical() == v.lexical() && matches!(t, T::L { .. }),
                        Ex::Stem(s) => is_lit(t, s),
                        Ex::LangTag(_) => false,
                    })
            }
            V::LangRange(s, ex) => {
                s.as_ref().is_none_or(|s| tag(t).is_some_and(|g| lang_match(g, s)))
                    && !ex.iter().any(|e| match e {
                        Ex::LangTag(l) => tag(t).is_some_and(|g| g.eq_ignore_ascii_case(l)),
                        Ex::Stem(s) => tag(t).is_some_and(|g| lang_match(g, s)),
                        Ex::V(_) => false,
                    })
            }
        }
    }
    pub fn shexc(&self) -> String {
        let q = |s: &str| format!("\"{}\"", esc(s));
        let exs = |ex: &Vec<Ex>, k: u8| -> String {
            ex.iter()
                .map(|e| {
                    " - ".to_string()
                        + &match (e, k) {
                            (Ex::V(v), 1) => q(&v.lexical()),
                            (Ex::V(v), _) => v.ttl(),
                            (Ex::Stem(s), 0) => format!("<{}>~", full(s)),
                            (Ex::Stem(s), 1) => format!("{}~", q(s)),
                            (Ex::Stem(s), _) => format!("@{s}~"),
                            (Ex::LangTag(l), _) => format!("@{l}"),
                        }
                })
                .collect()
        };
        match self {
            V::Obj(t) => t.ttl(),
            V::Lang(l) => format!("@{l}"),
            V::IriStem(s) => format!("<{}>~", full(s)),
            V::LitStem(s) => format!("{}~", q(s)),
            V::LangStem(s) => format!("@{s}~"),
            V::IriRange(s, ex) => s.as_ref().map(|s| format!("<{}>~", full(s))).unwrap_or(".".into()) + &exs(ex, 0),
            V::LitRange(s, ex) => s.as_ref().map(|s| format!("{}~", q(s))).unwrap_or(".".into()) + &exs(ex, 1),
            V::LangRange(s, ex) => s.as_ref().map(|s| format!("@{s}~")).unwrap_or(".".into()) + &exs(ex, 2),
        }
    }
}
fn js(s: &str) -> String {
    format!("\"{}\"", esc(s))
}
fn ov(t: &T) -> String {
    match t {
        T::L { lex, lang, .. } if !lang.is_empty() => format!("{{\"value\":{},\"language\":{}}}", js(lex), js(lang)),
        T::L { lex, dt, .. } if dt == "string" => format!("{{\"value\":{}}}", js(lex)),
        T::L { lex, dt, .. } => format!("{{\"value\":{},\"type\":\"{XSD}{dt}\"}}", js(lex)),
        t => js(&full(&t.lexical())),
    }
}
fn arr(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}
impl V {
    pub fn json(&self) -> String {
        let range = |k: &str, s: &Option<String>, ex: &Vec<Ex>| {
            let st = match s {
                None => "{\"type\":\"Wildcard\"}".to_string(),
                Some(s) => js(&if k == "Iri" { full(s) } else { s.clone() }),
            };
            let exs = arr(ex.iter().map(|e| match e {
                Ex::V(t @ T::I(_)) => js(&full(&t.lexical())),
                Ex::V(t) => js(&t.lexical()),
                Ex::Stem(s) => format!("{{\"type\":\"{k}Stem\",\"stem\":{}}}", js(&if k == "Iri" { full(s) } else { s.clone() })),
                Ex::LangTag(l) => js(l),
            }));
            format!("{{\"type\":\"{k}StemRange\",\"stem\":{st},\"exclusions\":{exs}}}")
        };
        match self {
            V::Obj(t) => ov(t),
            V::Lang(l) => format!("{{\"type\":\"Language\",\"languageTag\":{}}}", js(l)),
            V::IriStem(s) => format!("{{\"type\":\"IriStem\",\"stem\":{}}}", js(&full(s))),
            V::LitStem(s) => format!("{{\"type\":\"LiteralStem\",\"stem\":{}}}", js(s)),
            V::LangStem(s) => format!("{{\"type\":\"LanguageStem\",\"stem\":{}}}", js(s)),
            V::IriRange(s, ex) => range("Iri", s, ex),
            V::LitRange(s, ex) => range("Literal", s, ex),
            V::LangRange(s, ex) => range("Language", s, ex),
        }
    }
}
/// significant digits of a decimal/integer lexical form: (total, fraction)
fn digits(lex: &str) -> (usize, usize) {
    let b = lex.strip_prefix(['-', '+']).unwrap_or(lex);
    let (a, f) = b.split_once('.').unwrap_or((b, ""));
    let a = a.trim_start_matches('0');
    let f = f.trim_end_matches('0');
    if a.is_empty() {
        // 0.05 = 5 * 10^-2: the number of digits is the larger of the fraction digits and the significant ones
        (f.len().max(1), f.len())
    } else {
        (a.len() + f.len(), f.len())
    }
}
impl F {
    pub fn has(&self, t: &T) -> bool {
        let len = t.lexical().chars().count();
        let cmp = |n: &T, f: fn(std::cmp::Ordering) -> bool| match (t.num(), n.num()) {
            (Some(a), Some(b)) => a.cmp(&b).is_some_and(f),
            _ => false,
        };
        let dg = || match t {
            T::L { lex, dt, .. } if matches!(dt.as_str(), "integer" | "decimal" | "long" | "unsignedByte" | "nonNegativeInteger") && t.num().is_some() => Some(digits(lex)),
            _ => None,
        };
        match self {
            F::Len(n) => len == *n,
            F::MinLen(n) => len >= *n,
            F::MaxLen(n) => len <= *n,
            F::Pat(p) => match p.strip_prefix('^') {
                Some(r) => t.lexical().starts_with(r),
                None => match p.strip_suffix('$') {
                    Some(r) => t.lexical().ends_with(r),
                    None => t.lexical().contains(p.as_str()),
                },
            },
            F::MinI(n) => cmp(n, |o| o.is_ge()),
            F::MinE(n) => cmp(n, |o| o.is_gt()),
            F::MaxI(n) => cmp(n, |o| o.is_le()),
            F::MaxE(n) => cmp(n, |o| o.is_lt()),
            F::Total(n) => dg().is_some_and(|d| d.0 <= *n),
            F::Frac(n) => dg().is_some_and(|d| d.1 <= *n),
        }
    }
    pub fn shexc(&self) -> String {
        match self {
            F::Len(n) => format!("LENGTH {n}"),
            F::MinLen(n) => format!("MINLENGTH {n}"),
            F::MaxLen(n) => format!("MAXLENGTH {n}"),
            F::Pat(p) => format!("/{p}/"),
            F::MinI(n) => format!("MININCLUSIVE {}", n.lexical()),
            F::MinE(n) => format!("MINEXCLUSIVE {}", n.lexical()),
            F::MaxI(n) => format!("MAXINCLUSIVE {}", n.lexical()),
            F::MaxE(n) => format!("MAXEXCLUSIVE {}", n.lexical()),
            F::Total(n) => format!("TOTALDIGITS {n}"),
            F::Frac(n) => format!("FRACTIONDIGITS {n}"),
        }
    }
    pub fn numeric(&self) -> bool {
        !matches!(self, F::Len(_) | F::MinLen(_) | F::MaxLen(_) | F::Pat(_))
    }
}
impl F {
    fn json(&self) -> String {
        match self {
            F::Len(n) => format!(",\"length\":{n}"),
            F::MinLen(n) => format!(",\"minlength\":{n}"),
            F::MaxLen(n) => format!(",\"maxlength\":{n}"),
            F::Pat(p) => format!(",\"pattern\":{}", js(p)),
            F::MinI(n) => format!(",\"mininclusive\":{}", n.lexical()),
            F::MinE(n) => format!(",\"minexclusive\":{}", n.lexical()),
            F::MaxI(n) => format!(",\"maxinclusive\":{}", n.lexical()),
            F::MaxE(n) => format!(",\"maxexclusive\":{}", n.lexical()),
            F::Total(n) => format!(",\"totaldigits\":{n}"),
            F::Frac(n) => format!(",\"fractiondigits\":{n}"),
        }
    }
}
impl Nc {
    pub fn json(&self) -> String {
        let mut o = "{\"type\":\"NodeConstraint\"".to_string();
        if let Some(k) = &self.kind {
            o += &format!(",\"nodeKind\":\"{}\"", match k { Kind::Iri => "iri", Kind::Bnode => "bnode", Kind::Literal => "literal", Kind::NonLiteral => "nonliteral" })
        }
        if let Some(d) = &self.dt {
            o += &format!(",\"datatype\":\"{}{d}\"", if d == "langString" { "http://www.w3.org/1999/02/22-rdf-syntax-ns#" } else { XSD })
        }
        for f in &self.facets {
            o += &f.json()
        }
        if let Some(v) = &self.vals {
            o += &format!(",\"values\":{}", arr(v.iter().map(|v| v.json())))
        }
        o + "}"
    }
    pub fn has(&self, t: &T) -> bool {
        self.kind.as_ref().is_none_or(|k| match (k, t) {
            (Kind::Iri | Kind::NonLiteral, T::I(_)) => true,
            (Kind::Bnode | Kind::NonLiteral, T::B(_)) => true,
            (Kind::Literal, T::L { .. }) => true,
            _ => false,
        }) && self.dt.as_ref().is_none_or(|d| match t {
            T::L { lex, dt, lang } => (lang.is_empty() && dt == d && well_typed(lex, dt)) || (!lang.is_empty() && d == "langString"),
            _ => false,
        }) && self.facets.iter().all(|f| f.has(t))
            && self.vals.as_ref().is_none_or(|v| v.iter().any(|v| v.has(t)))
    }
    pub fn shexc(&self) -> String {
        let mut o = vec![];
        if let Some(k) = &self.kind {
            o.push(match k {
                Kind::Iri => "IRI",
                Kind::Bnode => "BNODE",
                Kind::Literal => "LITERAL",
                Kind::NonLiteral => "NONLITERAL",
            }.to_string());
        }
        if let Some(d) = &self.dt {
            o.push(if d == "langString" { "<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>".into() } else { format!("<{XSD}{d}>") });
        }
        if let Some(v) = &self.vals {
            o.push(format!("[ {} ]", v.iter().map(|v| v.shexc()).collect::<Vec<_>>().join(" ")));
        }
        o.extend(self.facets.iter().map(|f| f.shexc()));
        if o.is_empty() { ".".into() } else { o.join(" ") }
    }
}

// ---------- shapes ----------
#[derive(Clone, Debug)]
pub struct Tc {
    pub p: String,
    pub inv: bool,
    pub e: Option<Box<Se>>,
    pub min: usize,
    pub max: Option<usize>,
    /// with a semantic action that always succeeds
    pub act: bool,
}
#[derive(Clone, Debug)]
pub enum Te {
    Tc(Tc),
    Each(Vec<Te>, usize, Option<usize>),
    One(Vec<Te>, usize, Option<usize>),
}
#[derive(Clone, Debug, Default)]
pub struct Sh {
    pub closed: bool,
    pub extra: Vec<String>,
    pub te: Option<Te>,
}
#[derive(Clone, Debug)]
pub enum Se {
    And(Vec<Se>),
    Or(Vec<Se>),
    Not(Box<Se>),
    N(Nc),
    S(Sh),
    Ref(usize),
}
fn card(min: usize, max: Option<usize>) -> String {
    match (min, max) {
        (1, Some(1)) => "".into(),
        (0, Some(1)) => "?".into(),
        (0, None) => "*".into(),
        (1, None) => "+".into(),
        (m, None) => format!("{{{m},}}"),
        (m, Some(n)) if m == n => format!("{{{m}}}"),
        (m, Some(n)) => format!("{{{m},{n}}}"),
    }
}
fn cj(min: usize, max: Option<usize>) -> String {
    if (min, max) == (1, Some(1)) { String::new() } else { format!(",\"min\":{min},\"max\":{}", max.map(|m| m as i64).unwrap_or(-1)) }
}
impl Te {
    pub fn json(&self) -> String {
        match self {
            Te::Tc(t) => format!(
                "{{\"type\":\"TripleConstraint\",\"predicate\":{}{}{}{}{}}}",
                js(&full(&t.p)),
                if t.inv { ",\"inverse\":true" } else { "" },
                t.e.as_ref().map(|e| format!(",\"valueExpr\":{}", e.json())).unwrap_or_default(),
                cj(t.min, t.max),
                if t.act { ",\"semActs\":[{\"type\":\"SemAct\",\"name\":\"http://shex.io/extensions/Test/\"}]" } else { "" }
            ),
            Te::Each(v, m, n) => format!("{{\"type\":\"EachOf\",\"expressions\":{}{}}}", arr(v.iter().map(|t| t.json())), cj(*m, *n)),
            Te::One(v, m, n) => format!("{{\"type\":\"OneOf\",\"expressions\":{}{}}}", arr(v.iter().map(|t| t.json())), cj(*m, *n)),
        }
    }
    pub fn shexc(&self) -> String {
        match self {
            Te::Tc(t) => format!(
                "{}<{}> {} {}{}",
                if t.inv { "^" } else { "" },
                full(&t.p),
                match &t.e {
                    None => ".".to_string(),
                    Some(e) => match &**e {
                        Se::N(n) => n.shexc(),
                        Se::Ref(i) => format!("@<{NS}S{i}>"),
                        e => format!("({})", e.shexc()),
                    },
                },
                card(t.min, t.max),
                if t.act { " %<http://shex.io/extensions/Test/>%" } else { "" }
            ),
            Te::Each(v, m, n) => format!("( {} ){}", v.iter().map(|t| t.shexc()).collect::<Vec<_>>().join(" ; "), card(*m, *n)),
            Te::One(v, m, n) => format!("( {} ){}", v.iter().map(|t| t.shexc()).collect::<Vec<_>>().join(" | "), card(*m, *n)),
        }
    }
    pub fn tcs<'a>(&'a self, out: &mut Vec<&'a Tc>) {
        match self {
            Te::Tc(t) => out.push(t),
            Te::Each(v, _, _) | Te::One(v, _, _) => v.iter().for_each(|t| t.tcs(out)),
        }
    }
}
impl Se {
    pub fn json(&self) -> String {
        match self {
            Se::And(v) => format!("{{\"type\":\"ShapeAnd\",\"shapeExprs\":{}}}", arr(v.iter().map(|s| s.json()))),
            Se::Or(v) => format!("{{\"type\":\"ShapeOr\",\"shapeExprs\":{}}}", arr(v.iter().map(|s| s.json()))),
            Se::Not(s) => format!("{{\"type\":\"ShapeNot\",\"shapeExpr\":{}}}", s.json()),
            Se::N(n) => n.json(),
            Se::Ref(i) => format!("\"{NS}S{i}\""),
            Se::S(s) => {
                let mut o = "{\"type\":\"Shape\"".to_string();
                if s.closed {
                    o += ",\"closed\":true"
                }
                if !s.extra.is_empty() {
                    o += &format!(",\"extra\":{}", arr(s.extra.iter().map(|p| js(&full(p)))))
                }
                if let Some(t) = &s.te {
                    o += &format!(",\"expression\":{}", t.json())
                }
                o + "}"
            }
        }
    }
    pub fn shexc(&self) -> String {
        match self {
            Se::And(v) => v.iter().map(|s| format!("({})", s.shexc())).collect::<Vec<_>>().join(" AND "),
            Se::Or(v) => v.iter().map(|s| format!("({})", s.shexc())).collect::<Vec<_>>().join(" OR "),
            Se::Not(s) => format!("NOT ({})", s.shexc()),
            Se::N(n) => n.shexc(),
            Se::S(s) => {
                let mut o = String::new();
                if s.closed {
                    o += "CLOSED "
                }
                if !s.extra.is_empty() {
                    o += "EXTRA ";
                    for p in &s.extra {
                        o += &format!("<{}> ", full(p))
                    }
                }
                o + &format!("{{ {} }}", s.te.as_ref().map(|t| t.shexc()).unwrap_or_default())
            }
            Se::Ref(i) => format!("@<{NS}S{i}>"),
        }
    }
}
/// the shapes, each in a stratum: references inside a stratum are positive
#[derive(Clone, Debug)]
pub struct Schema(pub Vec<(Se, usize)>);
impl Schema {
    pub fn json(&self) -> String {
        format!(
            "{{\"@context\":\"http://www.w3.org/ns/shex.jsonld\",\"type\":\"Schema\",\"shapes\":{}}}",
            arr(self.0.iter().enumerate().map(|(i, (s, _))| format!("{{\"type\":\"ShapeDecl\",\"id\":\"{NS}S{i}\",\"shapeExpr\":{}}}", s.json())))
        )
    }
    pub fn shexc(&self) -> String {
        self.0.iter().enumerate().map(|(i, (s, _))| format!("<{NS}S{i}> {}\n", s.shexc())).collect()
    }
    /// stratified typing: (node, shape) pairs that hold
    pub fn typing(&self, g: &Graph, focus: &T) -> BTreeSet<(T, usize)> {
        let mut nodes: BTreeSet<T> = g.iter().flat_map(|(s, _, o)| [s.clone(), o.clone()]).collect();
        nodes.insert(focus.clone());
        let mut ty: BTreeSet<(T, usize)> = BTreeSet::new();
        let top = self.0.iter().map(|s| s.1).max().unwrap_or(0);
        for st in 0..=top {
            let here: Vec<usize> = (0..self.0.len()).filter(|i| self.0[*i].1 == st).collect();
            for n in &nodes {
                for i in &here {
                    ty.insert((n.clone(), *i));
                }
            }
            loop {
                let drop: Vec<(T, usize)> = ty
                    .iter()
                    .filter(|(n, i)| self.0[*i].1 == st && !sat(g, &ty, n, &self.0[*i].0))
                    .cloned()
                    .collect();
                if drop.is_empty() {
                    break;
                }
                for d in drop {
                    ty.remove(&d);
                }
            }
        }
        ty
    }
}
type Ty = BTreeSet<(T, usize)>;
pub fn sat(g: &Graph, ty: &Ty, n: &T, se: &Se) -> bool {
    match se {
        Se::And(v) => v.iter().all(|s| sat(g, ty, n, s)),
        Se::Or(v) => v.iter().any(|s| sat(g, ty, n, s)),
        Se::Not(s) => !sat(g, ty, n, s),
        Se::N(c) => c.has(n),
        Se::Ref(i) => ty.contains(&(n.clone(), *i)),
        Se::S(s) => sat_shape(g, ty, n, s),
    }
}
/// an arc: predicate, inverse, other end
type Arc = (String, bool, T);
fn sat_shape(g: &Graph, ty: &Ty, n: &T, s: &Sh) -> bool {
    let mut arcs: Vec<Arc> = vec![];
    for (a, p, b) in g {
        if a == n {
            arcs.push((p.clone(), false, b.clone()));
        }
        if b == n {
            arcs.push((p.clone(), true, a.clone()));
        }
    }
    let mut tcs = vec![];
    if let Some(t) = &s.te {
        t.tcs(&mut tcs)
    }
    let hit = |a: &Arc, t: &Tc| t.p == a.0 && t.inv == a.1 && t.e.as_ref().is_none_or(|e| sat(g, ty, &a.2, e));
    let mentioned = |a: &Arc| tcs.iter().any(|t| t.p == a.0 && t.inv == a.1);
    let (cand, rest): (Vec<Arc>, Vec<Arc>) = arcs.into_iter().partition(mentioned);
    if s.closed && rest.iter().any(|a| !a.1) {
        return false;
    }
    // triples that can be in the remainder: outgoing ones need EXTRA and match no triple constraint
    let must: Vec<Arc> = cand
        .iter()
        .filter(|a| a.1 || !s.extra.contains(&a.0) || tcs.iter().any(|t| hit(a, t)))
        .cloned()
        .collect();
    let Some(te) = &s.te else { return true };
    let mut ids = BTreeMap::new();
    let hits: Vec<Vec<bool>> = tcs.iter().enumerate().map(|(k, t)| {
        ids.insert(*t as *const Tc, k);
        must.iter().map(|a| hit(a, t)).collect()
    }).collect();
    let m = M { hits, ids };
    m.te(te, (1u32 << must.len()) - 1, &mut BTreeMap::new())
}
struct M {
    hits: Vec<Vec<bool>>,
    ids: BTreeMap<*const Tc, usize>,
}
type Memo = BTreeMap<(*const Te, u32, bool), bool>;
impl M {
    fn te(&self, te: &Te, mask: u32, memo: &mut Memo) -> bool {
        let k = (te as *const Te, mask, true);
        if let Some(b) = memo.get(&k) {
            return *b;
        }
        let b = match te {
            Te::Tc(t) => {
                let c = mask.count_ones() as usize;
                let h = &self.hits[self.ids[&(t as *const Tc)]];
                c >= t.min && t.max.is_none_or(|m| c <= m) && (0..32).all(|i| mask >> i & 1 == 0 || h[i])
            }
            Te::Each(_, min, max) | Te::One(_, min, max) => self.groups(te, mask, memo).iter().any(|j| max.is_none_or(|m| *j <= m) && (*j >= *min || self.one(te, 0, memo))),
        };
        memo.insert(k, b);
        b
    }
    /// possible numbers of non-empty groups the mask can be split into, each matching the body
    fn groups(&self, te: &Te, mask: u32, memo: &mut Memo) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        if mask == 0 {
            out.insert(0);
            return out;
        }
        let low = mask & mask.wrapping_neg();
        let mut sub = mask;
        while sub != 0 {
            if sub & low != 0 && self.one(te, sub, memo) {
                out.extend(self.groups(te, mask & !sub, memo).into_iter().map(|j| j + 1));
            }
            sub = (sub - 1) & mask;
        }
        out
    }
    /// one occurrence of the body of a group
    fn one(&self, te: &Te, mask: u32, memo: &mut Memo) -> bool {
        let k = (te as *const Te, mask, false);
        if let Some(b) = memo.get(&k) {
            return *b;
        }
        let b = match te {
            Te::Tc(_) => unreachable!(),
            Te::One(v, _, _) => v.iter().any(|t| self.te(t, mask, memo)),
            Te::Each(v, _, _) => self.each(v, mask, memo),
        };
        memo.insert(k, b);
        b
    }
    fn each(&self, v: &[Te], mask: u32, memo: &mut Memo) -> bool {
        let Some((h, t)) = v.split_first() else { return mask == 0 };
        let mut sub = mask;
        loop {
            if self.te(h, sub, memo) && self.each(t, mask & !sub, memo) {
                return true;
            }
            if sub == 0 {
                return false;
            }
            sub = (sub - 1) & mask;
        }
    }
}
