//! Token printer: prints lowered Rust tokens, replacing the `__vx_*!` markers with Verus clauses.
use crate::Ann;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub ann: &'a Ann,
    pub loop_no: usize,
    pub closure_no: usize,
    pub loop_vars: Vec<Vec<(String, String)>>,
    pub params: Vec<String>,
    pub used_loops: usize,
}

impl<'a> Printer<'a> {
    pub fn subst(&self, s: &str, this: Option<usize>) -> String {
        let mut r = s.to_string();
        for (n, vars) in self.loop_vars.iter().enumerate().rev() {
            for (k, v) in vars {
                r = r.replace(&format!("${k}@{n}"), v);
            }
        }
        if let Some(n) = this {
            for (k, v) in &self.loop_vars[n] {
                r = replace_word(&r, &format!("${k}"), v);
            }
        }
        for (i, p) in self.params.iter().enumerate().rev() {
            r = r.replace(&format!("${}", i + 1), p);
        }
        r
    }

    pub fn print(&mut self, ts: TokenStream) -> String {
        let mut out = String::new();
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut pending: Option<String> = None;
        while i < v.len() {
            if let TokenTree::Ident(x) = &v[i] {
                if x == "let" {
                    let names: Vec<String> = v[i + 1..].iter().take(2).map(|t| t.to_string()).collect();
                    let n = if names.first().map(String::as_str) == Some("mut") { names.get(1) } else { names.first() };
                    pending = n.and_then(|n| self.ann.after_let.get(n).cloned());
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{\n", "}\n"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        if let Some((name, args, rest)) = marker(&inner) {
                            match name.as_str() {
                                "__vx_loop" => {
                                    let n = self.loop_no;
                                    self.loop_no += 1;
                                    let vars: Vec<(String, String)> = args
                                        .split(',')
                                        .filter_map(|kv| kv.split_once('=').map(|(a, b)| (a.trim().to_string(), b.trim().to_string())))
                                        .collect();
                                    let kind = vars.iter().find(|(k, _)| k == "kind").map(|(_, v)| v.clone()).unwrap_or_default();
                                    while self.loop_vars.len() <= n {
                                        self.loop_vars.push(vec![]);
                                    }
                                    self.loop_vars[n] = vars;
                                    let user = self.ann.loops.get(&n).cloned().unwrap_or_default();
                                    let (inv, dec) = match user.split_once("decreases") {
                                        Some((a, b)) => (a.to_string(), format!("decreases {b}")),
                                        None => (user.clone(), String::new()),
                                    };
                                    // `inv` starts with the clause keyword; auto clauses come first
                                    let auto = match kind.as_str() {
                                        "vec" => "$i <= $c@.len(),",
                                        "range" => "$lo <= $hi ==> ($lo <= $i <= $hi),",
                                        _ => "",
                                    };
                                    let autodec = match kind.as_str() {
                                        "vec" => "decreases $c@.len() - $i,",
                                        "range" => "decreases $hi - $i,",
                                        _ => "",
                                    };
                                    let inv_t = inv.trim_start();
                                    let mut clause = String::new();
                                    if let Some(r) = inv_t.strip_prefix("invariant_except_break") {
                                        clause.push_str(&format!("\ninvariant_except_break {auto} {r}"));
                                    } else if let Some(r) = inv_t.strip_prefix("invariant") {
                                        clause.push_str(&format!("\ninvariant {auto} {r}"));
                                    } else if !auto.is_empty() {
                                        clause.push_str(&format!("\ninvariant {auto} {inv_t}"));
                                    } else {
                                        clause.push_str(&format!("\n{inv_t}"));
                                    }
                                    clause.push_str(&if dec.is_empty() { autodec.to_string() } else { dec });
                                    if let Some(s) = self.ann.loop_before.get(&n) {
                                        let w = out.rfind("while ");
                                        let l = out.rfind("loop ");
                                        let at = w.max(l).unwrap_or(out.len());
                                        let t = self.subst(s, Some(n));
                                        out.insert_str(at, &t);
                                    }
                                    out.push_str(&self.subst(&clause, Some(n)));
                                    out.push_str("\n{\n");
                                    if let Some(s) = self.ann.loop_start.get(&n) {
                                        out.push_str(&self.subst(s, Some(n)));
                                    }
                                    let body: TokenStream = rest.into_iter().collect();
                                    out.push_str(&self.print(body));
                                    if let Some(s) = self.ann.loop_end.get(&n) {
                                        out.push_str(";\n");
                                        out.push_str(&self.subst(s, Some(n)));
                                    }
                                    out.push_str("}\n");
                                    if let Some(s) = self.ann.loop_after.get(&n) {
                                        out.push_str(&self.subst(s, Some(n)));
                                    }
                                    i += 1;
                                    continue;
                                }
                                "__vx_closure" => {
                                    let n = self.closure_no;
                                    self.closure_no += 1;
                                    let c = self.ann.closures.get(&n).cloned().unwrap_or_default();
                                    out.push_str(&self.subst(&c, None));
                                    out.push_str("{\n");
                                    let body: TokenStream = rest.into_iter().collect();
                                    out.push_str(&self.print(body));
                                    out.push_str("}\n");
                                    i += 1;
                                    continue;
                                }
                                "__vx_arm" => {
                                    out.push_str("{\n");
                                    let txt = self
                                        .ann
                                        .arms
                                        .iter()
                                        .filter(|(p, _)| args.replace(' ', "").contains(p.as_str()))
                                        .map(|(_, t)| t.clone())
                                        .collect::<String>();
                                    out.push_str(&self.subst(&txt, None));
                                    let body: TokenStream = rest.into_iter().collect();
                                    out.push_str(&self.print(body));
                                    out.push_str("}\n");
                                    i += 1;
                                    continue;
                                }
                                _ => {}
                            }
                        }
                    }
                    out.push_str(o);
                    out.push_str(&self.print(g.stream()));
                    out.push_str(c);
                }
                TokenTree::Ident(x) => {
                    // names that Verus reserves
                    let n = x.to_string();
                    out.push_str(match n.as_str() {
                        "int" => "vx_int",
                        "nat" => "vx_nat",
                        n => n,
                    });
                    out.push(' ');
                }
                TokenTree::Literal(x) => {
                    out.push_str(&x.to_string());
                    out.push(' ');
                }
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    if p.as_char() == ';' {
                        out.push('\n');
                        if let Some(t) = pending.take() {
                            out.push_str(&self.subst(&t, None));
                        }
                    } else if p.spacing() == Spacing::Alone {
                        out.push(' ');
                    }
                }
            }
            i += 1;
        }
        out
    }
}

fn replace_word(s: &str, pat: &str, rep: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find(pat) {
        let after = &rest[p + pat.len()..];
        let next = after.chars().next();
        out.push_str(&rest[..p]);
        if next.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '@' && after.chars().nth(1).is_some_and(|d| d.is_ascii_digit())) {
            out.push_str(pat);
        } else {
            out.push_str(rep);
        }
        rest = after;
    }
    out.push_str(rest);
    out
}

/// `__vx_name ! ( args ) ;` at the start of a block
fn marker(v: &[TokenTree]) -> Option<(String, String, Vec<TokenTree>)> {
    if v.len() < 4 {
        return None;
    }
    let TokenTree::Ident(n) = &v[0] else { return None };
    if !n.to_string().starts_with("__vx_") {
        return None;
    }
    let TokenTree::Punct(p) = &v[1] else { return None };
    if p.as_char() != '!' {
        return None;
    }
    let TokenTree::Group(g) = &v[2] else { return None };
    let args = g.stream().to_string();
    Some((n.to_string(), args, v[4..].to_vec()))
}
