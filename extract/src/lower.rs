//! Lowering rules. Each rule is a standard Rust desugaring (same evaluation order, same results) or an
//! erasure of diagnostics (error payloads, log messages) that never influence the value the contract speaks
//! about. Every rule that fires is recorded and printed in the extraction report.
use crate::print::Printer;
use crate::{Ann, Cfg, FnRef};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{Block, Expr, Pat, Stmt, Type};

pub fn lower_type(cfg: &Cfg, item: syn::Item, drop: &BTreeSet<String>, _report: &mut Vec<String>) -> String {
    let ann = Ann::default();
    let fns = vec![];
    let mut lw = Lower::new(cfg, &ann, &fns, "type");
    let ts = match item {
        syn::Item::Struct(s) => {
            let name = lw.type_ident(&s.ident);
            match &s.fields {
                syn::Fields::Named(f) => {
                    let fs: Vec<_> = f
                        .named
                        .iter()
                        .filter(|f| !drop.contains(&f.ident.as_ref().unwrap().to_string()))
                        .map(|f| {
                            let n = &f.ident;
                            let t = lw.ty(&f.ty);
                            quote!(pub #n: #t,)
                        })
                        .collect();
                    quote!(pub struct #name { #(#fs)* })
                }
                syn::Fields::Unnamed(f) => {
                    let fs: Vec<_> = f
                        .unnamed
                        .iter()
                        .map(|f| {
                            let t = lw.ty(&f.ty);
                            quote!(pub #t,)
                        })
                        .collect();
                    quote!(pub struct #name ( #(#fs)* );)
                }
                syn::Fields::Unit => quote!(pub struct #name;),
            }
        }
        syn::Item::Enum(s) => {
            let name = lw.type_ident(&s.ident);
            let vs: Vec<_> = s
                .variants
                .iter()
                .map(|v| {
                    let n = &v.ident;
                    match &v.fields {
                        syn::Fields::Named(f) => {
                            let fs: Vec<_> = f
                                .named
                                .iter()
                                .filter(|f| !drop.contains(&f.ident.as_ref().unwrap().to_string()))
                                .map(|f| {
                                    let n = &f.ident;
                                    let t = lw.ty(&f.ty);
                                    quote!(#n: #t,)
                                })
                                .collect();
                            quote!(#n { #(#fs)* },)
                        }
                        syn::Fields::Unnamed(f) => {
                            let fs: Vec<_> = f
                                .unnamed
                                .iter()
                                .map(|f| {
                                    let t = lw.ty(&f.ty);
                                    quote!(#t,)
                                })
                                .collect();
                            quote!(#n ( #(#fs)* ),)
                        }
                        syn::Fields::Unit => quote!(#n,),
                    }
                })
                .collect();
            quote!(pub enum #name { #(#vs)* })
        }
        syn::Item::Const(c) => {
            let n = &c.ident;
            let t = lw.ty(&c.ty);
            let e = lw.expr(&c.expr);
            quote!(pub const #n: #t = #e;)
        }
        _ => quote!(),
    };
    let mut p = Printer { ann: &ann, loop_no: 0, closure_no: 0, loop_vars: vec![], params: vec![], used_loops: 0 };
    p.print(ts)
}

pub struct Lower<'a> {
    cfg: &'a Cfg,
    ann: &'a Ann,
    fns: &'a [FnRef],
    spec: String,
    pub self_ty: Option<String>,
    pub rules: BTreeSet<String>,
    uid: usize,
    collect_no: usize,
    ret_kind: String,
    inline_stack: Vec<String>,
    self_name: Option<Ident>,
    pub assume_let: BTreeMap<String, Type>,
    /// inside the closure of an adapter: what `?` does ("continue") or that it is out of reach ("lost")
    try_mode: Option<&'static str>,
    shadow: BTreeSet<String>,
}

#[derive(Clone)]
enum Source {
    /// place expression of an indexable sequence; items are `&place[i]`
    Vec(TokenStream, bool), // (expr, needs binding)
    Range(TokenStream, TokenStream),
    RangeIncl(TokenStream, TokenStream),
}

#[derive(Clone)]
enum Adapter {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Cloned,
    Copied,
    Enumerate,
    ByVal,
    TakeWhileNone,
}

struct Chain {
    src: Source,
    ads: Vec<Adapter>,
    rev: bool,
    skip: Option<TokenStream>,
    take: Option<TokenStream>,
    zip: Option<Source>,
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(g) => strip(&g.expr),
        _ => e,
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Reference(r) => is_place(&r.expr),
        _ => false,
    }
}

fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root_ident(&f.base),
        Expr::MethodCall(m) => root_ident(&m.receiver),
        Expr::Paren(p) => root_ident(&p.expr),
        Expr::Reference(p) => root_ident(&p.expr),
        Expr::Assign(a) => root_ident(&a.left),
        Expr::Binary(a) => root_ident(&a.left),
        Expr::Index(a) => root_ident(&a.expr),
        _ => None,
    }
}

fn last_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|i| i.ident.to_string()),
        Expr::Field(f) => match &f.member {
            syn::Member::Named(n) => Some(n.to_string()),
            _ => None,
        },
        Expr::Paren(p) => last_name(&p.expr),
        Expr::Reference(p) => last_name(&p.expr),
        Expr::MethodCall(m) => Some(format!("{}()", m.method)),
        _ => None,
    }
}

fn path_str(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn upper(s: &str) -> bool {
    s.chars().next().is_some_and(|c| c.is_uppercase())
}

fn contains_kw(ts: TokenStream, kw: &str) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == kw,
        proc_macro2::TokenTree::Group(g) => contains_kw(g.stream(), kw),
        _ => false,
    })
}
fn contains_return(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "return",
        TokenTree::Punct(p) => p.as_char() == '?',
        TokenTree::Group(g) => contains_return(g.stream()),
        _ => false,
    })
}

fn pat_idents(p: &Pat, out: &mut Vec<Ident>) {
    match p {
        Pat::Ident(i) => {
            if !upper(&i.ident.to_string()) {
                out.push(i.ident.clone());
            }
            if let Some((_, s)) = &i.subpat {
                pat_idents(s, out)
            }
        }
        Pat::Tuple(t) => t.elems.iter().for_each(|x| pat_idents(x, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|x| pat_idents(x, out)),
        Pat::Struct(s) => s.fields.iter().for_each(|f| pat_idents(&f.pat, out)),
        Pat::Reference(r) => pat_idents(&r.pat, out),
        Pat::Paren(r) => pat_idents(&r.pat, out),
        Pat::Type(r) => pat_idents(&r.pat, out),
        Pat::Or(o) => {
            if let Some(f) = o.cases.first() {
                pat_idents(f, out)
            }
        }
        _ => {}
    }
}

impl<'a> Lower<'a> {
    pub fn new(cfg: &'a Cfg, ann: &'a Ann, fns: &'a [FnRef], spec: &str) -> Self {
        Lower {
            cfg,
            ann,
            fns,
            spec: spec.to_string(),
            self_ty: None,
            rules: BTreeSet::new(),
            uid: 0,
            collect_no: 0,
            ret_kind: String::new(),
            inline_stack: vec![],
            self_name: None,
            assume_let: BTreeMap::new(),
            try_mode: None,
            shadow: BTreeSet::new(),
        }
    }
    fn is_map(&self, n: &str) -> bool {
        self.cfg.map_ident.contains(n) && !self.shadow.contains(n)
    }
    fn iter_via(&self, n: &str) -> Option<String> {
        if self.cfg.map_ident.contains(n) && self.shadow.contains(n) {
            return self.cfg.iter_via.values().next().cloned();
        }
        self.cfg.iter_via.get(n).cloned()
    }
    fn lost(&self, m: &str) -> ! {
        crate::die(format!("{}: {m}", self.spec))
    }
    fn rule(&mut self, r: &str) {
        self.rules.insert(r.to_string());
    }
    fn fresh(&mut self, b: &str) -> Ident {
        self.uid += 1;
        format_ident!("vx_{}{}", b, self.uid)
    }

    pub fn type_ident(&self, i: &Ident) -> TokenStream {
        match self.cfg.subst_type.get(&i.to_string()) {
            Some(t) => t.parse().unwrap(),
            None => quote!(#i),
        }
    }

    fn expr_type_ident(&self, i: &Ident) -> TokenStream {
        match self.cfg.subst_type.get(&i.to_string()) {
            Some(t) => t.split('<').next().unwrap().parse().unwrap(),
            None => quote!(#i),
        }
    }

    pub fn ty(&mut self, t: &Type) -> TokenStream {
        match t {
            Type::Path(p) => {
                let full = path_str(&p.path);
                if let Some(r) = self.cfg.subst_type.get(&full) {
                    return r.parse().unwrap();
                }
                let seg = p.path.segments.last().unwrap();
                let id = self.type_ident(&seg.ident);
                if self.cfg.subst_type.contains_key(&seg.ident.to_string()) {
                    return id;
                }
                if self.cfg.erase_generics.contains(&seg.ident.to_string()) {
                    return id;
                }
                match &seg.arguments {
                    syn::PathArguments::AngleBracketed(a) => {
                        let args: Vec<_> = a
                            .args
                            .iter()
                            .filter_map(|x| match x {
                                syn::GenericArgument::Type(t) => Some(self.ty(t)),
                                _ => None,
                            })
                            .collect();
                        if args.is_empty() {
                            id
                        } else {
                            quote!(#id<#(#args),*>)
                        }
                    }
                    _ => id,
                }
            }
            Type::Reference(r) => {
                let m = &r.mutability;
                let e = self.ty(&r.elem);
                quote!(& #m #e)
            }
            Type::Tuple(t) => {
                let es: Vec<_> = t.elems.iter().map(|x| self.ty(x)).collect();
                if es.len() == 1 {
                    quote!((#(#es),*,))
                } else {
                    quote!((#(#es),*))
                }
            }
            Type::Slice(s) => {
                let e = self.ty(&s.elem);
                quote!([#e])
            }
            Type::Array(s) => {
                let e = self.ty(&s.elem);
                let l = &s.len;
                quote!([#e; #l])
            }
            Type::Paren(p) => self.ty(&p.elem),
            Type::Infer(_) => quote!(_),
            _ => t.to_token_stream(),
        }
    }

    /// canonical path: `crate::m::Ty::f` -> `Ty::f`, `crate::m::f` -> `f`
    fn path(&mut self, p: &syn::Path) -> TokenStream {
        let full = path_str(p);
        if let Some(r) = self.cfg.remap_path.get(&full) {
            self.rule(&format!("path {full} reads {r}"));
            return r.parse().unwrap();
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 {
            if segs[0] == "self" {
                if let Some(s) = &self.self_name {
                    return quote!(#s);
                }
            }
            let s = &p.segments[0].ident;
            if upper(&segs[0]) {
                return self.expr_type_ident(s);
            }
            return quote!(#s);
        }
        let n = segs.len();
        let two = format!("{}::{}", segs[n - 2], segs[n - 1]);
        if let Some(r) = self.cfg.remap_path.get(&two) {
            self.rule(&format!("path {full} reads {r}"));
            return r.parse().unwrap();
        }
        let prim = ["usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128", "u128", "f64", "char", "str"];
        if upper(&segs[n - 2]) || prim.contains(&segs[n - 2].as_str()) {
            let a = if segs[n - 2] == "Self" {
                match &self.self_ty {
                    Some(t) => {
                        let i = Ident::new(t, Span::call_site());
                        self.expr_type_ident(&i)
                    }
                    None => quote!(Self),
                }
            } else {
                let i = &p.segments[n - 2].ident;
                self.expr_type_ident(i)
            };
            let b = &p.segments[n - 1].ident;
            quote!(#a::#b)
        } else {
            let b = &p.segments[n - 1].ident;
            quote!(#b)
        }
    }

    pub fn pat(&mut self, p: &Pat) -> TokenStream {
        match p {
            Pat::Ident(i) => {
                let (r, m, n) = (&i.by_ref, &i.mutability, &i.ident);
                match &i.subpat {
                    Some((_, s)) => {
                        let s = self.pat(s);
                        quote!(#r #m #n @ #s)
                    }
                    None => quote!(#r #m #n),
                }
            }
            Pat::Tuple(t) => {
                let es: Vec<_> = t.elems.iter().map(|x| self.pat(x)).collect();
                quote!((#(#es),*))
            }
            Pat::TupleStruct(t) => {
                let p = self.path(&t.path);
                let es: Vec<_> = t.elems.iter().map(|x| self.pat(x)).collect();
                quote!(#p(#(#es),*))
            }
            Pat::Struct(s) => {
                let p = self.path(&s.path);
                let fs: Vec<_> = s
                    .fields
                    .iter()
                    .map(|f| {
                        let m = &f.member;
                        let p = self.pat(&f.pat);
                        if f.colon_token.is_some() {
                            quote!(#m: #p,)
                        } else {
                            quote!(#p,)
                        }
                    })
                    .collect();
                let r = &s.rest;
                quote!(#p { #(#fs)* #r })
            }
            Pat::Path(p) => self.path(&p.path),
            Pat::Reference(r) => {
                let (m, p) = (&r.mutability, self.pat(&r.pat));
                quote!(& #m #p)
            }
            Pat::Paren(r) => {
                let p = self.pat(&r.pat);
                quote!((#p))
            }
            Pat::Or(o) => {
                let es: Vec<_> = o.cases.iter().map(|x| self.pat(x)).collect();
                quote!(#(#es)|*)
            }
            Pat::Type(t) => {
                let (p, ty) = (self.pat(&t.pat), self.ty(&t.ty));
                quote!(#p: #ty)
            }
            _ => p.to_token_stream(),
        }
    }

    fn is_log(p: &syn::Path) -> bool {
        let s = path_str(p);
        let l = s.rsplit("::").next().unwrap();
        ["trace", "debug", "info", "warn", "error"].contains(&l) || ["println", "eprintln", "print", "eprint"].contains(&l)
    }

    pub fn block(&mut self, b: &Block) -> TokenStream {
        let mut out = TokenStream::new();
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter().enumerate() {
            out.extend(self.stmt(s, k + 1 == n));
        }
        out
    }

    fn dropped(&self, id: &str) -> bool {
        self.cfg.drop_ident.contains(id)
    }

    fn stmt(&mut self, s: &Stmt, _last: bool) -> TokenStream {
        match s {
            Stmt::Local(l) => {
                let mut ids = vec![];
                pat_idents(&l.pat, &mut ids);
                if ids.len() == 1 && self.dropped(&ids[0].to_string()) {
                    self.rule(&format!("diagnostic binding `{}` dropped", ids[0]));
                    return quote!();
                }
                let mut pt = match &l.pat {
                    Pat::Type(t) => self.pat(&t.pat),
                    p => self.pat(p),
                };
                let mut tt = match &l.pat {
                    Pat::Type(t) if !matches!(*t.ty, Type::Infer(_)) && !t.ty.to_token_stream().to_string().contains('_') => {
                        let t = self.ty(&t.ty);
                        quote!(: #t)
                    }
                    _ => quote!(),
                };
                if ids.len() == 1 {
                    if let Some(t) = self.ann.letty.get(&ids[0].to_string()) {
                        let t: TokenStream = t.parse().unwrap();
                        tt = quote!(: #t);
                    }
                }
                match &l.init {
                    None => quote!(let #pt #tt;),
                    Some(i) => {
                        let e = if self.lazy(&i.expr) && !self.cfg.seq_methods.is_empty() {
                            self.rule("iterator bound to a variable materialised as Vec");
                            let x = &i.expr;
                            let x: Expr = syn::parse_quote!(#x.collect::<Vec<_>>());
                            self.expr(&x)
                        } else {
                            self.expr(&i.expr)
                        };
                        if let Some((_, d)) = &i.diverge {
                            self.rule("let-else -> match");
                            let d = self.expr(d);
                            let names: Vec<Ident> = ids.clone();
                            let inner = self.pat(&l.pat);
                            pt = if names.len() == 1 { let n = &names[0]; quote!(#n) } else { quote!((#(#names),*)) };
                            let val = if names.len() == 1 { let n = &names[0]; quote!(#n) } else { quote!((#(#names),*)) };
                            return quote!(let #pt #tt = match #e { #inner => #val, _ => #d };);
                        }
                        quote!(let #pt #tt = #e;)
                    }
                }
            }
            Stmt::Item(syn::Item::Use(_)) => quote!(),
            Stmt::Item(i) => i.to_token_stream(),
            Stmt::Expr(e, semi) => {
                if let Some(r) = root_ident(e) {
                    if self.dropped(&r) {
                        self.rule(&format!("diagnostic statement on `{r}` dropped"));
                        return quote!();
                    }
                }
                if let Expr::Macro(m) = strip(e) {
                    if Self::is_log(&m.mac.path) {
                        return quote!();
                    }
                }
                let t = self.expr(e);
                quote!(#t #semi)
            }
            Stmt::Macro(m) => {
                if Self::is_log(&m.mac.path) {
                    self.rule("log macro dropped");
                    return quote!();
                }
                let t = self.mac(&m.mac);
                let semi = &m.semi_token;
                quote!(#t #semi)
            }
        }
    }

    fn mac(&mut self, m: &syn::Macro) -> TokenStream {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if let Some(f) = self.cfg.erase_macro.get(&name).and_then(|t| t.strip_prefix("fn:")) {
            if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                self.rule(&format!("{name}!(..) -> {f}(..)"));
                let f: TokenStream = f.parse().unwrap();
                let a: Vec<_> = a.iter().map(|e| self.expr(e)).collect();
                return quote!(#f(#(#a),*));
            }
        }
        if let Some(t) = self.cfg.erase_macro.get(&name) {
            self.rule(&format!("{name}! erased to {t}"));
            return t.parse().unwrap();
        }
        match name.as_str() {
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = syn::parse2(m.tokens.clone()).unwrap_or_else(|_| self.lost("matches!"));
                self.rule("matches! -> match");
                let (e, p) = (self.expr(&e), self.pat(&p));
                let g = match g {
                    Some(g) => {
                        let g = self.expr(&g);
                        quote!(if #g)
                    }
                    None => quote!(),
                };
                quote!((match #e { #p #g => true, _ => false }))
            }
            "vec" => {
                let es = syn::parse::Parser::parse2(
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                    m.tokens.clone(),
                );
                match es {
                    Ok(es) => {
                        self.rule("vec![..] -> pushes");
                        let v = self.fresh("v");
                        let es: Vec<_> = es.iter().map(|e| self.expr(e)).collect();
                        if es.is_empty() {
                            quote!(Vec::new())
                        } else {
                            quote!({ let mut #v = Vec::new(); #(#v.push(#es);)* #v })
                        }
                    }
                    Err(_) => {
                        struct R(Expr, Expr);
                        impl syn::parse::Parse for R {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let a = i.parse()?;
                                i.parse::<syn::Token![;]>()?;
                                Ok(R(a, i.parse()?))
                            }
                        }
                        let R(a, b) = syn::parse2(m.tokens.clone()).unwrap_or_else(|_| self.lost("vec!"));
                        self.rule("vec![x; n] -> vx_repeat");
                        let (a, b) = (self.expr(&a), self.expr(&b));
                        quote!(vx_repeat(#a, #b))
                    }
                }
            }
            "format" => {
                if self.ann.fmt {
                    if let Some(t) = self.format_cat(m) {
                        self.rule("format! -> concatenation");
                        return t;
                    }
                }
                self.rule("format! -> arbitrary string");
                quote!(vx_opaque_string())
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.rule("panic -> must be unreachable");
                quote!(vx_unreachable())
            }
            "assert" | "debug_assert" => {
                let es = syn::parse::Parser::parse2(
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                    m.tokens.clone(),
                )
                .unwrap_or_else(|_| self.lost("assert!"));
                let c = self.expr(&es[0]);
                quote!(vx_check(#c))
            }
            _ => self.lost(&format!("macro {name}! not supported")),
        }
    }

    /// a variable, a field of one, or a call without arguments on one
    fn plain_arg(e: &Expr) -> bool {
        match e {
            Expr::Path(_) => true,
            Expr::Field(f) => Self::plain_arg(&f.base),
            Expr::Reference(r) => Self::plain_arg(&r.expr),
            Expr::Paren(p) => Self::plain_arg(&p.expr),
            Expr::MethodCall(m) => m.args.is_empty() && matches!(strip(&m.receiver), Expr::Path(_) | Expr::Field(_)),
            _ => false,
        }
    }

    /// `format!` whose arguments are all plain variables, as a concatenation of texts
    fn format_cat(&mut self, m: &syn::Macro) -> Option<TokenStream> {
        let es = syn::parse::Parser::parse2(
            syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
            m.tokens.clone(),
        )
        .ok()?;
        let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. }) = es.first()? else { return None };
        let mut args = es.iter().skip(1);
        let f = f.value();
        let mut parts: Vec<TokenStream> = vec![];
        let mut lit = String::new();
        let mut cs = f.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    lit.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    lit.push('}');
                }
                '{' => {
                    let mut n = String::new();
                    loop {
                        match cs.next()? {
                            '}' => break,
                            c if c == '_' || c.is_ascii_alphanumeric() => n.push(c),
                            _ => return None,
                        }
                    }
                    if !lit.is_empty() {
                        parts.push(quote!(vx_text(#lit)));
                        lit.clear();
                    }
                    let e = if n.is_empty() {
                        let a = args.next()?.clone();
                        if !Self::plain_arg(&a) {
                            return None;
                        }
                        self.expr(&a)
                    } else { let i = format_ident!("{}", n); quote!(#i) };
                    parts.push(quote!(vx_show(& #e)));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() || parts.is_empty() {
            parts.push(quote!(vx_text(#lit)));
        }
        let mut it = parts.into_iter();
        let a = it.next()?;
        Some(it.fold(a, |a, b| quote!(vx_cat(#a, #b))))
    }
    fn cond_has_let(e: &Expr) -> bool {
        match e {
            Expr::Let(_) => true,
            Expr::Binary(b) => matches!(b.op, syn::BinOp::And(_)) && (Self::cond_has_let(&b.left) || Self::cond_has_let(&b.right)),
            Expr::Paren(p) => Self::cond_has_let(&p.expr),
            _ => false,
        }
    }
    fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
        match e {
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) && Self::cond_has_let(e) => {
                Self::conjuncts(&b.left, out);
                Self::conjuncts(&b.right, out);
            }
            _ => out.push(e.clone()),
        }
    }

    fn if_chain(&mut self, cs: &[Expr], then: &TokenStream, els: &TokenStream) -> TokenStream {
        if cs.is_empty() {
            return then.clone();
        }
        let rest = self.if_chain(&cs[1..], then, els);
        match &cs[0] {
            Expr::Let(l) => {
                let (p, e) = (self.pat(&l.pat), self.expr(&l.expr));
                let ps = p.to_string();
                quote!(match #e { #p => { __vx_arm!(#ps); #rest } _ => { #els } })
            }
            c => {
                let c = self.expr(c);
                quote!(if #c { #rest } else { #els })
            }
        }
    }

    fn closure_parts(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
        match strip(e) {
            Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
            _ => None,
        }
    }

    /// apply a closure literal (inlined) or a function path to argument tokens
    fn apply(&mut self, f: &Expr, args: Vec<TokenStream>) -> TokenStream {
        self.apply_x(f, args, false)
    }
    /// `opt`: the closure yields an Option and the loop goes on with the next item on None
    fn apply_x(&mut self, f: &Expr, args: Vec<TokenStream>, opt: bool) -> TokenStream {
        match Self::closure_parts(f) {
            Some((ps, body)) => {
                let body = if contains_return(body.to_token_stream()) {
                    match &body {
                        Expr::Block(b) => match detail(&b.block) {
                            Some(b) => {
                                self.rule("early returns of a closure -> nested ifs");
                                Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b })
                            }
                            None => self.lost("closure with return/?"),
                        },
                        _ => body,
                    }
                } else {
                    body
                };
                let ts = body.to_token_stream();
                let save_try = self.try_mode;
                if contains_kw(ts.clone(), "return") {
                    self.lost("closure with return");
                }
                if contains_return(ts.clone()) {
                    if !opt || contains_kw(ts.clone(), "while") || contains_kw(ts, "loop") {
                        self.lost("closure with ?");
                    }
                    self.try_mode = Some("continue");
                } else {
                    self.try_mode = Some("lost");
                }
                let b = self.expr(&body);
                self.try_mode = save_try;
                let mut lets = TokenStream::new();
                for (p, a) in ps.iter().zip(args) {
                    let p = match p {
                        Pat::Type(t) => self.pat(&t.pat),
                        p => self.pat(p),
                    };
                    if p.to_string() != a.to_string() {
                        lets.extend(quote!(let #p = #a;));
                    }
                }
                quote!({ #lets #b })
            }
            None => match strip(f) {
                Expr::Path(p) => {
                    let call = Expr::Path(p.clone());
                    let f = self.expr(&call);
                    quote!(#f(#(#args),*))
                }
                _ => self.lost("iterator adapter argument"),
            },
        }
    }

    // ---------- iterator chains ----------
    /// a call (possibly behind `?` and erased methods) of a method that hands out a vector of items
    /// an iterator that is not consumed yet
    fn lazy(&self, e: &Expr) -> bool {
        let Expr::MethodCall(m) = strip(e) else { return false };
        let n = m.method.to_string();
        if !["map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied"].contains(&n.as_str()) {
            return false;
        }
        let mut r = strip(&m.receiver);
        loop {
            if self.iter_root(r) {
                return true;
            }
            let Expr::MethodCall(k) = r else { return false };
            let n = k.method.to_string();
            if ["iter", "into_iter", "keys", "values", "chars"].contains(&n.as_str()) {
                return true;
            }
            if !["map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "enumerate", "skip", "take", "rev", "zip"].contains(&n.as_str()) {
                return false;
            }
            r = strip(&k.receiver);
        }
    }
    fn iter_root(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Try(t) => self.iter_root(&t.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.cfg.iter_results.contains(&n) || (self.cfg.erase_method.contains_key(&n) && self.iter_root(&m.receiver))
            }
            _ => false,
        }
    }
    fn chain(&mut self, e: &Expr, top: bool) -> Option<Chain> {
        let e = strip(e);
        let mk = |s| Some(Chain { src: s, ads: vec![], rev: false, skip: None, take: None, zip: None });
        match e {
            Expr::Range(r) => {
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return None };
                let (a, b) = (self.expr(a), self.expr(b));
                match r.limits {
                    syn::RangeLimits::HalfOpen(_) => mk(Source::Range(a, b)),
                    syn::RangeLimits::Closed(_) => mk(Source::RangeIncl(a, b)),
                }
            }
            Expr::Reference(r) if top => {
                if let Expr::MethodCall(m) = strip(&r.expr) {
                    // &x.set() of a registered set
                    if let (true, Some(v)) = (m.args.is_empty(), self.iter_via(&m.method.to_string())) {
                        let b = self.expr(&r.expr);
                        let v = format_ident!("{}", v);
                        return mk(Source::Vec(quote!(#b.#v()), true));
                    }
                }
                let n = last_name(&r.expr)?;
                if self.is_map(&n) {
                    let b = self.expr(&r.expr);
                    return mk(Source::Vec(quote!(#b.vx_entries()), true)).map(|mut c| {
                        c.ads.push(Adapter::TakeWhileNone);
                        c
                    });
                }
                if let Some(v) = self.iter_via(&n) {
                    let b = self.expr(&r.expr);
                    let v = format_ident!("{}", v);
                    return mk(Source::Vec(quote!(#b.#v()), true));
                }
                if top && self.iter_root(&r.expr) {
                    let b = self.expr(&r.expr);
                    return mk(Source::Vec(b, true));
                }
                if !is_place(&r.expr) {
                    return None;
                }
                let b = self.expr(&r.expr);
                mk(Source::Vec(b, false))
            }
            Expr::Path(p) if top => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let b = self.path(&p.path);
                if self.is_map(&n) {
                    return mk(Source::Vec(quote!(#b.vx_entries()), true)).map(|mut c| {
                        c.ads.push(Adapter::TakeWhileNone);
                        c
                    });
                }
                if let Some(v) = self.iter_via(&n) {
                    let v = format_ident!("{}", v);
                    return mk(Source::Vec(quote!(#b.#v()), true)).map(|mut c| {
                        if self.cfg.byval_iter.contains(&n) {
                            c.ads.push(Adapter::ByVal);
                        }
                        c
                    });
                }
                let mut c = mk(Source::Vec(b, false))?;
                if self.cfg.byval_iter.contains(&n) {
                    c.ads.push(Adapter::ByVal);
                }
                Some(c)
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    if l == "cloned" && c.args.len() == 1 {
                        let mut ch = self.chain(&c.args[0], false)?;
                        ch.ads.push(Adapter::Cloned);
                        return Some(ch);
                    }
                    if top && self.cfg.iter_results.contains(&l) {
                        let b = self.expr(e);
                        let mut ch = mk(Source::Vec(b, true))?;
                        if self.cfg.byval_iter.contains(&l) {
                            ch.ads.push(Adapter::ByVal);
                        }
                        return Some(ch);
                    }
                }
                None
            }
            e if self.iter_root(e) => {
                let mut b = self.expr(e);
                if let Some(v) = last_name(e).and_then(|n| self.cfg.iter_via.get(&n).cloned()) {
                    let v = format_ident!("{}", v);
                    b = quote!(#b.#v());
                }
                let mut q = e;
                let byval = loop {
                    match q {
                        Expr::Try(t) => q = strip(&t.expr),
                        Expr::MethodCall(m) if self.cfg.byval_iter.contains(&m.method.to_string()) => break true,
                        Expr::MethodCall(m) if self.cfg.erase_method.contains_key(&m.method.to_string()) => q = strip(&m.receiver),
                        _ => break false,
                    }
                };
                mk(Source::Vec(b, true)).map(|mut c| {
                    if byval {
                        c.ads.push(Adapter::ByVal);
                    }
                    c
                })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter" | "into_iter" | "iter_mut", 0) => {
                        if let Some(n) = last_name(&m.receiver) {
                            if self.is_map(&n) {
                                let b = self.expr(&m.receiver);
                                return mk(Source::Vec(quote!(#b.vx_entries()), true)).map(|mut c| {
                                    c.ads.push(Adapter::TakeWhileNone);
                                    c
                                });
                            }
                        }
                        if let Some(v) = last_name(&m.receiver).and_then(|n| self.iter_via(&n)) {
                            let b = self.expr(&m.receiver);
                            let v = format_ident!("{}", v);
                            let n = last_name(&m.receiver).unwrap_or_default();
                            return mk(Source::Vec(quote!(#b.#v()), true)).map(|mut c| {
                                if name == "into_iter" && self.cfg.byval_iter.contains(&n) {
                                    c.ads.push(Adapter::ByVal);
                                }
                                c
                            });
                        }
                        if let Expr::Range(_) = strip(&m.receiver) {
                            return self.chain(&m.receiver, false);
                        }
                        if matches!(strip(&m.receiver), Expr::MethodCall(g) if self.cfg.seq_methods.contains(&g.method.to_string())) && name == "into_iter" {
                            self.rule("items of a collection, an option or a result -> vx_seq");
                            let b = self.expr(&m.receiver);
                            let mut c = mk(Source::Vec(quote!(vx_seq(#b)), true))?;
                            c.ads.push(Adapter::ByVal);
                            return Some(c);
                        }
                        if matches!(strip(&m.receiver), Expr::MethodCall(g) if ["get", "first", "last"].contains(&g.method.to_string().as_str())) && name == "into_iter" {
                            self.rule("option.into_iter() -> a vector of at most one item");
                            let b = self.expr(&m.receiver);
                            let mut c = mk(Source::Vec(quote!(vx_opt_items(#b)), true))?;
                            c.ads.push(Adapter::Copied);
                            return Some(c);
                        }
                        let place = is_place(strip(&m.receiver));
                        let b = self.expr(&m.receiver);
                        let mut c = mk(Source::Vec(b, !place))?;
                        if name == "into_iter" {
                            let n = last_name(&m.receiver).unwrap_or_default();
                            if self.cfg.byval_iter.contains(&n) {
                                c.ads.push(Adapter::ByVal);
                            }
                        }
                        Some(c)
                    }
                    ("as_slice", 0) if matches!(strip(&m.receiver), Expr::MethodCall(k) if k.method == "iter") => self.chain(&m.receiver, top),
                    ("keys" | "values" | "chars" | "bytes" | "drain", _) if name != "drain" => {
                        let b = self.expr(&m.receiver);
                        let f = format_ident!("vx_{}", name);
                        let mut c = mk(Source::Vec(quote!(#b.#f()), true))?;
                        if name == "chars" || name == "bytes" {
                            c.ads.push(Adapter::Copied);
                        }
                        Some(c)
                    }
                    (n, _) if self.cfg.iter_methods.contains(n) => {
                        let b = self.expr(e);
                        let mut c = mk(Source::Vec(b, true))?;
                        c.ads.push(Adapter::Copied);
                        Some(c)
                    }
                    ("map", 1) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(Adapter::Map(m.args[0].clone()));
                        Some(c)
                    }
                    ("filter", 1) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(Adapter::Filter(m.args[0].clone()));
                        Some(c)
                    }
                    ("filter_map", 1) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(Adapter::FilterMap(m.args[0].clone()));
                        Some(c)
                    }
                    ("flat_map", 1) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(Adapter::FlatMap(m.args[0].clone()));
                        Some(c)
                    }
                    ("flatten", 0) if !self.cfg.seq_methods.is_empty() => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(Adapter::FlatMap(syn::parse_quote!(|vx_flat| vx_flat)));
                        Some(c)
                    }
                    ("cloned", 0) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(Adapter::Cloned);
                        Some(c)
                    }
                    ("copied", 0) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(Adapter::Copied);
                        Some(c)
                    }
                    ("enumerate", 0) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        if c.ads.iter().any(|a| matches!(a, Adapter::Filter(_) | Adapter::FilterMap(_))) || c.rev || c.skip.is_some() {
                            self.lost("enumerate after filter");
                        }
                        c.ads.push(Adapter::Enumerate);
                        Some(c)
                    }
                    ("rev", 0) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        if !c.ads.is_empty() || c.skip.is_some() || c.take.is_some() {
                            self.lost("rev after adapters");
                        }
                        c.rev = true;
                        Some(c)
                    }
                    ("skip", 1) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        if c.ads.iter().any(|a| matches!(a, Adapter::Filter(_) | Adapter::FilterMap(_))) || c.rev || c.take.is_some() {
                            self.lost("skip after filter");
                        }
                        let n = self.expr(&m.args[0]);
                        c.skip = Some(n);
                        Some(c)
                    }
                    ("take", 1) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        if c.ads.iter().any(|a| matches!(a, Adapter::Filter(_) | Adapter::FilterMap(_))) || c.rev || c.skip.is_some() {
                            self.lost("take after filter");
                        }
                        let n = self.expr(&m.args[0]);
                        c.take = Some(n);
                        Some(c)
                    }
                    ("zip", 1) => {
                        let mut c = self.chain(&m.receiver, false)?;
                        let d = self.chain(&m.args[0], true)?;
                        if !c.ads.is_empty() || !d.ads.is_empty() {
                            self.lost("zip of adapted iterators");
                        }
                        c.zip = Some(d.src);
                        Some(c)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Generates the loop. `body(item_tokens)` is the code run for every item; `guard` is added to the loop condition.
    fn emit_loop(
        &mut self,
        ch: Chain,
        pat: Option<&Pat>,
        guard: TokenStream,
        acc: Option<&Ident>,
        label: TokenStream,
        body: &mut dyn FnMut(&mut Self, TokenStream) -> TokenStream,
    ) -> TokenStream {
        let save_try = self.try_mode;
        if self.try_mode.is_some() {
            self.try_mode = Some("lost");
        }
        let r = self.emit_loop_x(ch, pat, guard, acc, label, body);
        self.try_mode = save_try;
        r
    }
    fn emit_loop_x(
        &mut self,
        ch: Chain,
        pat: Option<&Pat>,
        guard: TokenStream,
        acc: Option<&Ident>,
        label: TokenStream,
        body: &mut dyn FnMut(&mut Self, TokenStream) -> TokenStream,
    ) -> TokenStream {
        let i = self.fresh("i");
        let mut pre = TokenStream::new();
        let mut marker_extra = String::new();
        if let Some(a) = acc {
            marker_extra.push_str(&format!(",acc={a}"));
        }
        let (init, cond, item0, inc, kind);
        let mut cname = String::new();
        let mut byidx = false;
        match ch.src.clone() {
            Source::Vec(mut c, bind) => {
                let entries = matches!(ch.ads.first(), Some(Adapter::TakeWhileNone));
                if bind {
                    let cv = self.fresh("c");
                    pre.extend(quote!(let #cv = #c;));
                    c = quote!(#cv);
                }
                cname = c.to_string().replace(' ', "");
                let mut hi = quote!(#c.len());
                if let Some(z) = &ch.zip {
                    let Source::Vec(mut d, b2) = z.clone() else { self.lost("zip with range") };
                    if b2 {
                        let dv = self.fresh("d");
                        pre.extend(quote!(let #dv = #d;));
                        d = quote!(#dv);
                    }
                    marker_extra.push_str(&format!(",d={}", d.to_string().replace(' ', "")));
                    hi = quote!(#c.len() && #i < #d.len());
                    let idx = quote!(#i);
                    item0 = quote!((&#c[#idx], &#d[#idx]));
                } else if entries && self.cfg.bag_entries {
                    item0 = quote!((&#c[#i].0, #c[#i].1));
                } else if entries {
                    item0 = quote!((&#c[#i].0, &#c[#i].1));
                } else if ch.rev {
                    item0 = quote!(&#c[#c.len() - 1 - #i]);
                } else {
                    item0 = quote!(&#c[#i]);
                    byidx = true;
                }
                if let Some(n) = &ch.take {
                    let tv = self.fresh("take");
                    pre.extend(quote!(let #tv: usize = #n;));
                    hi = quote!(#hi && #i < #tv);
                }
                init = match &ch.skip {
                    Some(n) => {
                        let s = self.fresh("skip");
                        pre.extend(quote!(let #s: usize = #n;));
                        quote!(if #s <= #c.len() { #s } else { #c.len() })
                    }
                    None => quote!(0),
                };
                cond = quote!(#i < #hi);
                inc = quote!(#i = #i + 1;);
                kind = "vec";
            }
            Source::Range(a, b) => {
                let lo = self.fresh("lo");
                let hi = self.fresh("hi");
                pre.extend(quote!(let #hi = #b; let #lo = #a;));
                marker_extra.push_str(&format!(",lo={lo},hi={hi}"));
                if ch.rev {
                    init = quote!(#hi);
                    cond = quote!(#i > #lo);
                    inc = quote!();
                    item0 = quote!({ #i = #i - 1; #i });
                    kind = "rangerev";
                } else {
                    init = quote!(#lo);
                    cond = quote!(#i < #hi);
                    item0 = quote!(#i);
                    inc = quote!(#i = #i + 1;);
                    kind = "range";
                }
            }
            Source::RangeIncl(a, b) => {
                let lo = self.fresh("lo");
                let hi = self.fresh("hi");
                let done = self.fresh("done");
                pre.extend(quote!(let #lo = #a; let #hi = #b; let mut #done = #lo > #hi;));
                marker_extra.push_str(&format!(",lo={lo},hi={hi},done={done}"));
                init = quote!(#lo);
                cond = quote!(!#done);
                item0 = quote!(#i);
                inc = quote!(if #i == #hi { #done = true; } else { #i = #i + 1; });
                kind = "rangeincl";
            }
        }
        self.rule("iterator/for -> index loop");
        let it = self.fresh("x");
        let mut steps = TokenStream::new();
        let mut cur = quote!(#it);
        let is_simple = byidx && ch.ads.is_empty();
        let _ = is_simple;
        let itemty = if kind == "vec" { quote!() } else { quote!(: _) };
        let _ = itemty;
        steps.extend(quote!(let #it = #item0;));
        steps.extend(inc);
        for (k, a) in ch.ads.iter().enumerate() {
            let many = |f: &Expr| matches!(f, Expr::Closure(c) if matches!(&*c.body, Expr::Block(b) if b.block.stmts.len() > 1));
            if let (Adapter::FlatMap(f), false) = (a, matches!(a, Adapter::FlatMap(f) if many(f))) {
                let named: Option<Expr> = match strip(f) {
                    Expr::Path(q) => Some(syn::parse_quote!(|vx_arg| #q(vx_arg))),
                    _ => None,
                };
                let Some((ps, fb)) = Self::closure_parts(named.as_ref().unwrap_or(f)) else { self.lost("flat_map argument") };
                let fb = match &fb {
                    Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                        Stmt::Expr(e, None) => e.clone(),
                        _ => fb.clone(),
                    },
                    _ => fb.clone(),
                };
                let mut ids = vec![];
                pat_idents(&ps[0], &mut ids);
                let save_shadow = self.shadow.clone();
                self.shadow.extend(ids.iter().map(|i| i.to_string()));
                let flat = matches!(&fb, Expr::Path(p) if p.path.is_ident("vx_flat"));
                let inner = if flat { None } else { self.chain(&fb, true) };
                let mut inner = match inner {
                    Some(c) => c,
                    None if self.cfg.seq_methods.is_empty() => self.lost("flat_map body"),
                    None => {
                        self.rule("items of a collection, an option or a result -> vx_seq");
                        let b = self.expr(&fb);
                        Chain { src: Source::Vec(quote!(vx_seq(#b)), true), ads: vec![Adapter::ByVal], rev: false, skip: None, take: None, zip: None }
                    }
                };
                self.shadow = save_shadow;
                inner.ads.extend(ch.ads[k + 1..].iter().cloned());
                let p = self.pat(&ps[0]);
                steps.extend(quote!(let #p = #cur;));
                let il = self.emit_loop(inner, pat, guard.clone(), acc, quote!(), body);
                let mk: TokenStream = format!("i={i},c={cname},kind={kind}{marker_extra}").replace('.', " . ").parse().unwrap();
                return quote!(
                    #pre
                    let mut #i = #init;
                    #label while #cond #guard { __vx_loop!(#mk); #steps #il }
                );
            }
            let nx = self.fresh("x");
            match a {
                Adapter::TakeWhileNone => continue,
                Adapter::Cloned | Adapter::ByVal => {
                    if matches!(a, Adapter::ByVal) {
                        self.rule("by-value iteration reads the items");
                        steps.extend(quote!(let #nx = vx_own(#cur);));
                    } else {
                        let cl = format_ident!("{}", self.cfg.remap_method.get("clone").filter(|n| !n.contains(':')).map(|n| n.as_str()).unwrap_or("clone"));
                        steps.extend(quote!(let #nx = #cur.#cl();));
                    }
                }
                Adapter::Copied => steps.extend(quote!(let #nx = *#cur;)),
                Adapter::Enumerate => steps.extend(quote!(let #nx = (#i - 1, #cur);)),
                Adapter::Map(f) => {
                    let v = self.apply(f, vec![cur.clone()]);
                    steps.extend(quote!(let #nx = #v;));
                }
                Adapter::Filter(f) => {
                    let c2 = quote!(&#cur);
                    let v = self.apply(f, vec![c2]);
                    steps.extend(quote!(if !#v { continue; }));
                    continue;
                }
                Adapter::FilterMap(f) | Adapter::FlatMap(f) => {
                    let v = self.apply_x(f, vec![cur.clone()], true);
                    steps.extend(quote!(let #nx = match #v { Some(vx_some) => vx_some, None => { continue; } };));
                }
            }
            cur = quote!(#nx);
        }
        if let Some(p) = pat {
            let p = self.pat(p);
            steps.extend(quote!(let #p = #cur;));
        }
        let b = body(self, cur);
        let mk: TokenStream = format!("i={i},c={cname},kind={kind}{marker_extra}").replace('.', " . ").parse().unwrap();
        quote!(
            #pre
            let mut #i = #init;
            #label while #cond #guard { __vx_loop!(#mk); #steps #b }
        )
    }

    fn terminal(&mut self, m: &syn::ExprMethodCall) -> Option<TokenStream> {
        let name = m.method.to_string();
        if !["all", "any", "fold", "for_each", "collect", "count", "find", "find_map", "position", "sum", "max", "min", "max_by_key", "next", "last", "partition"].contains(&name.as_str()) {
            return None;
        }
        let save = (self.uid, self.rules.clone());
        if let (true, Expr::MethodCall(c)) = (name == "collect", strip(&m.receiver)) {
            if c.method == "chain" && c.args.len() == 1 && !self.ann.collect.contains_key(&self.collect_no) {
                // a.chain(b).collect(): the items of a, then those of b
                if let (Some(a), Some(b)) = (self.chain(&c.receiver, false), self.chain(&c.args[0], false)) {
                    self.collect_no += 1;
                    let acc = self.fresh("acc");
                    let a2 = acc.clone();
                    let l1 = self.emit_loop(a, None, quote!(), Some(&acc), quote!(), &mut |_, it| quote!(#a2.push(#it);));
                    let l2 = self.emit_loop(b, None, quote!(), Some(&acc), quote!(), &mut |_, it| quote!(#a2.push(#it);));
                    self.rule("a.chain(b).collect() -> two loops");
                    return Some(quote!({ let mut #acc = Vec::new(); #l1 #l2 #acc }));
                }
                self.uid = save.0;
                self.rules = save.1.clone();
            }
        }
        let Some(ch) = self.chain(&m.receiver, false) else {
            self.uid = save.0;
            return None;
        };
        let acc = self.fresh("acc");
        match name.as_str() {
            "all" | "any" => {
                let all = name == "all";
                let f = m.args[0].clone();
                let g = if all { quote!(&& #acc) } else { quote!(&& !#acc) };
                let a2 = acc.clone();
                let l = self.emit_loop(ch, None, g, Some(&acc), quote!(), &mut |s, it| {
                    let v = s.apply(&f, vec![it]);
                    quote!(#a2 = #v;)
                });
                Some(quote!({ let mut #acc: bool = #all; #l #acc }))
            }
            "fold" => {
                let init = self.expr(&m.args[0]);
                let f = m.args[1].clone();
                let a2 = acc.clone();
                let l = self.emit_loop(ch, None, quote!(), Some(&acc), quote!(), &mut |s, it| {
                    let v = s.apply(&f, vec![quote!(#a2), it]);
                    quote!(#a2 = #v;)
                });
                Some(quote!({ let mut #acc = #init; #l #acc }))
            }
            "for_each" => {
                let f = m.args[0].clone();
                let l = self.emit_loop(ch, None, quote!(), None, quote!(), &mut |s, it| {
                    let v = s.apply(&f, vec![it]);
                    quote!(#v;)
                });
                Some(quote!({ #l }))
            }
            "count" => {
                let a2 = acc.clone();
                let l = self.emit_loop(ch, None, quote!(), Some(&acc), quote!(), &mut |_, _| quote!(#a2 = #a2 + 1;));
                Some(quote!({ let mut #acc: usize = 0; #l #acc }))
            }
            "partition" => {
                let f = m.args[0].clone();
                let a2 = acc.clone();
                let l = self.emit_loop(ch, None, quote!(), Some(&acc), quote!(), &mut |s, it| {
                    let v = s.apply(&f, vec![quote!(&#it)]);
                    quote!(if #v { #a2.0.push(#it); } else { #a2.1.push(#it); })
                });
                Some(quote!({ let mut #acc = (Vec::new(), Vec::new()); #l #acc }))
            }
            "max_by_key" => {
                // the last of the items with the greatest key
                let f = m.args[0].clone();
                let a2 = acc.clone();
                let l = self.emit_loop(ch, None, quote!(), Some(&acc), quote!(), &mut |s, it| {
                    let k = s.apply(&f, vec![quote!(&#it)]);
                    let b = s.apply(&f, vec![quote!(vx_b)]);
                    quote!({ vx_like(&#a2, &#it); let vx_k = #k; let vx_r = match &#a2 { Some(vx_b) => { let vx_l = #b; vx_k >= vx_l }, None => true }; if vx_r { #a2 = Some(#it); } })
                });
                self.rule("max_by_key -> loop");
                Some(quote!({ let mut #acc = None; #l #acc }))
            }
            "sum" => {
                let a2 = acc.clone();
                let l = self.emit_loop(ch, None, quote!(), Some(&acc), quote!(), &mut |_, it| quote!(#a2 = #a2 + #it;));
                Some(quote!({ let mut #acc = 0; #l #acc }))
            }
            "find" | "position" | "find_map" => {
                let f = m.args[0].clone();
                let a2 = acc.clone();
                let nm = name.clone();
                let l = self.emit_loop(ch, None, quote!(&& #acc.is_none()), Some(&acc), quote!(), &mut |s, it| match nm.as_str() {
                    "find" => {
                        let v = s.apply(&f, vec![quote!(&#it)]);
                        quote!(if #v { #a2 = Some(#it); })
                    }
                    "find_map" => {
                        let v = s.apply(&f, vec![it]);
                        quote!(#a2 = #v;)
                    }
                    _ => s.lost("position"),
                });
                Some(quote!({ let mut #acc = None; #l #acc }))
            }
            "collect" => {
                let n = self.collect_no;
                self.collect_no += 1;
                let how = self.ann.collect.get(&n).cloned().or_else(|| {
                    m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).and_then(|s| {
                        if s.starts_with("HashSet") {
                            Some("HashSet insert".to_string())
                        } else {
                            None
                        }
                    })
                });
                let (ty, op) = match how {
                    Some(h) => {
                        let (a, b) = h.rsplit_once(' ').unwrap_or((&h, "push"));
                        (a.to_string(), b.to_string())
                    }
                    None => ("Vec".to_string(), "push".to_string()),
                };
                let ty: TokenStream = ty.parse().unwrap();
                let op = format_ident!("{}", op);
                let a2 = acc.clone();
                let l = self.emit_loop(ch, None, quote!(), Some(&acc), quote!(), &mut |_, it| quote!(#a2.#op(#it);));
                Some(quote!({ let mut #acc = #ty::new(); #l #acc }))
            }
            _ => {
                self.lost(&format!("iterator terminal {name}"));
            }
        }
    }

    // ---------- inlining ----------
    fn try_inline(&mut self, name: &str, recv: Option<TokenStream>, args: Vec<TokenStream>) -> Option<TokenStream> {
        if self.cfg.known.contains(name) || self.inline_stack.len() > 3 || self.inline_stack.iter().any(|x| x == name) {
            return None;
        }
        let mut found = None;
        for f in self.fns {
            match f {
                FnRef::Free(x) if recv.is_none() && x.sig.ident == name => found = Some((x.sig.clone(), (*x.block).clone())),
                FnRef::Method(t, _, x) if x.sig.ident == name && self.self_ty.as_ref() == Some(t) => {
                    if x.sig.receiver().is_some() == recv.is_some() {
                        found = Some((x.sig.clone(), x.block.clone()))
                    }
                }
                _ => {}
            }
        }
        let (sig, block) = found?;
        let block = match detail(&block) {
            Some(b) => b,
            None => return None,
        };
        if contains_return(block.to_token_stream()) {
            return None;
        }
        self.inline_stack.push(name.to_string());
        let mut lets = TokenStream::new();
        let mut lets2 = TokenStream::new();
        let save_self = self.self_name.clone();
        if let Some(r) = recv {
            let s = self.fresh("self");
            let byref = sig.receiver().is_some_and(|r| r.reference.is_some());
            // autoref: receivers that are already references stay as they are
            let rt = r.to_string();
            if byref && rt == "self" {
                lets.extend(quote!(let #s = self;));
            } else if byref && rt.starts_with("vx_self") {
                lets.extend(quote!(let #s = #r;));
            } else if byref {
                lets.extend(quote!(let #s = &#r;));
            } else {
                lets.extend(quote!(let #s = #r;));
            }
            self.self_name = Some(s);
        }
        let ps: Vec<_> = sig.inputs.iter().filter_map(|x| if let syn::FnArg::Typed(t) = x { Some(t.clone()) } else { None }).collect();
        for (p, a) in ps.iter().zip(args) {
            let tmp = self.fresh("arg");
            let pt = self.pat(&p.pat);
            lets.extend(quote!(let #tmp = #a;));
            lets2.extend(quote!(let #pt = #tmp;));
        }
        let b = self.block(&block);
        self.self_name = save_self;
        self.inline_stack.pop();
        self.rule(&format!("helper {name} inlined"));
        Some(quote!({ #lets #lets2 #b }))
    }

    // ---------- expressions ----------
    /// an iterator handed to another function is materialised as a Vec (the chains here have no side effects)
    fn arg(&mut self, e: &Expr) -> TokenStream {
        if let Expr::MethodCall(m) = strip(e) {
            let n = m.method.to_string();
            if ["map", "filter", "cloned", "copied", "filter_map", "enumerate"].contains(&n.as_str()) || (!self.cfg.seq_methods.is_empty() && self.lazy(e)) {
                let save = (self.uid, self.rules.clone());
                let is = self.chain(e, false).is_some();
                self.uid = save.0;
                self.rules = save.1;
                if is {
                    self.rule("iterator argument materialised as Vec");
                    let c: Expr = syn::parse_quote!(#e.collect());
                    return self.expr(&c);
                }
            }
        }
        self.expr(e)
    }

    // ---------- expressions ----------
    pub fn expr(&mut self, e: &Expr) -> TokenStream {
        match e {
            Expr::Lit(l) => quote!(#l),
            Expr::Path(p) => {
                let full = path_str(&p.path);
                for (k, v) in &self.cfg.erase_path {
                    let hit = match k.strip_suffix("::*") {
                        Some(pre) => full.contains(&format!("{pre}::")) || full == pre,
                        None => full == *k || full.ends_with(&format!("::{k}")),
                    };
                    if hit {
                        let v = v.clone();
                        self.rule(&format!("{full} erased to {v}"));
                        return v.parse().unwrap();
                    }
                }
                self.path(&p.path)
            }
            Expr::Reference(r) => {
                let (m, x) = (&r.mutability, self.expr(&r.expr));
                quote!(&#m #x)
            }
            Expr::Unary(u) => {
                let (o, x) = (&u.op, self.expr(&u.expr));
                quote!(#o #x)
            }
            Expr::Binary(b) => {
                let (l, o, r) = (self.expr(&b.left), &b.op, self.expr(&b.right));
                quote!(#l #o #r)
            }
            Expr::Paren(p) => {
                let x = self.expr(&p.expr);
                quote!((#x))
            }
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Tuple(t) => {
                let es: Vec<_> = t.elems.iter().map(|x| self.expr(x)).collect();
                quote!((#(#es),*))
            }
            Expr::Array(t) => {
                let es: Vec<_> = t.elems.iter().map(|x| self.expr(x)).collect();
                quote!([#(#es),*])
            }
            Expr::Struct(s) => {
                let full = path_str(&s.path);
                if let Some(t) = self.erased(&full) {
                    return t;
                }
                let p = self.path(&s.path);
                let fs: Vec<_> = s
                    .fields
                    .iter()
                    .filter(|f| match &f.member {
                        syn::Member::Named(n) => !self.dropped(&n.to_string()),
                        _ => true,
                    })
                    .cloned()
                    .collect::<Vec<_>>()
                    .iter()
                    .map(|f| {
                        let m = &f.member;
                        let x = self.expr(&f.expr);
                        quote!(#m: #x,)
                    })
                    .collect();
                quote!(#p { #(#fs)* })
            }
            Expr::Field(f) => {
                let (b, m) = (self.expr(&f.base), &f.member);
                quote!(#b.#m)
            }
            Expr::Index(x) => {
                let (b, i) = (self.expr(&x.expr), self.expr(&x.index));
                quote!(#b[#i])
            }
            Expr::Cast(c) => {
                let (x, t) = (self.expr(&c.expr), self.ty(&c.ty));
                quote!((#x as #t))
            }
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    let x = self.expr(x);
                    quote!(return #x)
                }
                None => quote!(return),
            },
            Expr::Break(b) => {
                let l = &b.label;
                match &b.expr {
                    Some(x) => {
                        let x = self.expr(x);
                        quote!(break #l #x)
                    }
                    None => quote!(break #l),
                }
            }
            Expr::Continue(_) => quote!(#e),
            Expr::Assign(a) => {
                let (l, r) = (self.expr(&a.left), self.expr(&a.right));
                quote!(#l = #r)
            }
            Expr::Block(b) => {
                let x = self.block(&b.block);
                quote!({ #x })
            }
            Expr::If(i) => {
                let t = self.block(&i.then_branch);
                let els = match &i.else_branch {
                    Some((_, e)) => self.expr(e),
                    None => quote!(),
                };
                if Self::cond_has_let(&i.cond) {
                    let mut cs = vec![];
                    Self::conjuncts(&i.cond, &mut cs);
                    if cs.len() > 1 {
                        self.rule("let-chain -> nested match");
                    }
                    return self.if_chain(&cs, &t, &els);
                }
                let c = self.expr(&i.cond);
                if i.else_branch.is_some() {
                    if els.to_string().starts_with('{') || els.to_string().starts_with("if ") {
                        quote!(if #c { #t } else #els)
                    } else {
                        quote!(if #c { #t } else { #els })
                    }
                } else {
                    quote!(if #c { #t })
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) => self.slice_match(m),
            Expr::Match(m) => {
                let x = self.expr(&m.expr);
                let arms: Vec<_> = m
                    .arms
                    .iter()
                    .map(|a| {
                        let p = self.pat(&a.pat);
                        let g = match &a.guard {
                            Some((_, g)) => {
                                let g = self.expr(g);
                                quote!(if #g)
                            }
                            None => quote!(),
                        };
                        let b = match &*a.body {
                            Expr::Block(b) => self.block(&b.block),
                            b => {
                                if let Expr::Macro(m) = b {
                                    if Self::is_log(&m.mac.path) {
                                        quote!()
                                    } else {
                                        self.expr(b)
                                    }
                                } else {
                                    self.expr(b)
                                }
                            }
                        };
                        let ps = p.to_string();
                        quote!(#p #g => { __vx_arm!(#ps); #b })
                    })
                    .collect();
                quote!(match #x { #(#arms)* })
            }
            Expr::Let(_) => self.lost("let in expression position"),
            Expr::While(w) => {
                let b = self.block(&w.body);
                let l = &w.label;
                if Self::cond_has_let(&w.cond) {
                    self.rule("while-let -> loop/match");
                    let mut cs = vec![];
                    Self::conjuncts(&w.cond, &mut cs);
                    let x = self.if_chain(&cs, &b, &quote!(break;));
                    return quote!(#l loop { __vx_loop!(kind=plain); #x });
                }
                let c = self.expr(&w.cond);
                quote!(#l while #c { __vx_loop!(kind=plain); #b })
            }
            Expr::Loop(w) => {
                let b = self.block(&w.body);
                let l = &w.label;
                quote!(#l loop { __vx_loop!(kind=plain); #b })
            }
            Expr::ForLoop(f) => {
                let label = f.label.to_token_stream();
                let ch = self.chain(&f.expr, true);
                match ch {
                    Some(ch) => {
                        let body = f.body.clone();
                        let l = self.emit_loop(ch, Some(&f.pat), quote!(), None, label, &mut |s, _| s.block(&body));
                        quote!({ #l })
                    }
                    None => {
                        if let Expr::MethodCall(m) = strip(&f.expr) {
                            if let (true, Some(Expr::MethodCall(a))) = (m.method == "chain", m.args.first().map(strip)) {
                                if let (Expr::MethodCall(fst), true) = (strip(&m.receiver), a.method == "by_ref") {
                                    if fst.method == "into_iter" {
                                        self.rule("for over option.into_iter().chain(it.by_ref()) -> the option, then it.next()");
                                        let it = self.fresh("it");
                                        let (e, b2) = (self.expr(&fst.receiver), self.expr(&a.receiver));
                                        let p = self.pat(&f.pat);
                                        let b = self.block(&f.body);
                                        let mk: TokenStream = format!("it={it},kind=plain").parse().unwrap();
                                        return quote!({ let mut #it = #e; #label loop { __vx_loop!(#mk); match vx_chain_next(&mut #it, &mut #b2) { None => { break; } Some(#p) => { #b } } } });
                                    }
                                }
                            }
                        }
                        self.rule("for over iterator -> loop/next");
                        let it = self.fresh("it");
                        let e = self.expr(&f.expr);
                        let p = self.pat(&f.pat);
                        let b = self.block(&f.body);
                        let mk: TokenStream = format!("it={it},kind=plain").parse().unwrap();
                        quote!({ let mut #it = #e; #label loop { __vx_loop!(#mk); match #it.next() { None => { break; } Some(#p) => { #b } } } })
                    }
                }
            }
            Expr::Range(r) => {
                let a = r.start.as_ref().map(|x| self.expr(x)).unwrap_or_default();
                let b = r.end.as_ref().map(|x| self.expr(x)).unwrap_or_default();
                let l = &r.limits;
                quote!(#a #l #b)
            }
            Expr::Try(t) => {
                let x = self.expr(&t.expr);
                if !self.inline_stack.is_empty() {
                    self.lost("? in inlined helper");
                }
                match self.try_mode {
                    Some("continue") => {
                        self.rule("? of an adapter closure -> next iteration");
                        return quote!((match #x { Some(vx_v) => vx_v, None => { continue; } }));
                    }
                    Some(_) => self.lost("? in a closure"),
                    None => {}
                }
                if self.ret_kind == "Option" {
                    self.rule("? -> match");
                    quote!((match #x { Some(vx_v) => vx_v, None => { return None; } }))
                } else {
                    self.rule("? -> match (error conversion erased)");
                    quote!((match #x { Ok(vx_v) => vx_v, Err(vx_e) => { return Err(vx_e); } }))
                }
            }
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Closure(c) => {
                let ins: Vec<_> = c.inputs.iter().map(|p| self.pat(p)).collect();
                let save_try = self.try_mode.take();
                let b = self.expr(&c.body);
                self.try_mode = save_try;
                quote!(|#(#ins),*| { __vx_closure!(); #b })
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let full = path_str(&p.path);
                    if let Some(t) = self.erased(&full) {
                        return t;
                    }
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    if l == "from_iter" && c.args.len() == 1 && matches!(strip(&c.args[0]), Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1) {
                        let Expr::MethodCall(m) = strip(&c.args[0]) else { unreachable!() };
                        self.rule("T::from_iter(a.chain(b)) -> T::vx_from_vec(vx_concat(a, b))");
                        let (a, b) = (&m.receiver, &m.args[0]);
                        let x: Expr = syn::parse_quote!(#a.collect::<Vec<_>>());
                        let a = self.expr(&x);
                        let b = if self.lazy(b) {
                            let x: Expr = syn::parse_quote!(#b.collect::<Vec<_>>());
                            self.expr(&x)
                        } else {
                            self.expr(b)
                        };
                        let t = p.path.segments.iter().rev().nth(1).map(|x| x.ident.to_string()).unwrap_or_default();
                        let t = format_ident!("{}", t);
                        return quote!(#t::vx_from_vec(vx_concat(#a, #b)));
                    }
                    if l == "from_iter" && c.args.len() == 1 && matches!(strip(&c.args[0]), Expr::MethodCall(m) if m.method == "map" || m.method == "filter" || m.method == "cloned") {
                        self.rule("T::from_iter(chain) -> T::vx_from_vec(chain.collect())");
                        let a = &c.args[0];
                        let x: Expr = syn::parse_quote!(#a.collect::<Vec<_>>());
                        let v = self.expr(&x);
                        let t = p.path.segments.iter().rev().nth(1).map(|x| x.ident.to_string()).unwrap_or_default();
                        let t = format_ident!("{}", t);
                        return quote!(#t::vx_from_vec(#v));
                    }
                    if full == "Box::new" && self.ann.boxiter {
                        self.rule("boxed iterator materialised as Vec");
                        let a = &c.args[0];
                        let x: Expr = syn::parse_quote!(#a.collect());
                        return self.expr(&x);
                    }
                    if full == "Box::new" || full == "Arc::new" || full == "Rc::new" {
                        if self.cfg.subst_type.contains_key("Box::new") || full != "Box::new" {
                            return self.expr(&c.args[0]);
                        }
                    }
                    let remapped = self.cfg.remap_path.contains_key(&full);
                    let segs = p.path.segments.len();
                    let first = p.path.segments[0].ident.to_string();
                    if !remapped && (segs == 1 || first == "Self" || self.self_ty.as_ref() == Some(&first)) && !upper(&l) {
                        let args: Vec<_> = c.args.iter().map(|a| self.arg(a)).collect();
                        if let Some(t) = self.try_inline(&l, None, args) {
                            return t;
                        }
                    }
                    if let Some(mname) = self.cfg.remap_path.get(&format!("{full}/method")) {
                        // path call of a method, e.g. HashMap::new
                        let args: Vec<_> = c.args.iter().map(|a| self.arg(a)).collect();
                        let f: TokenStream = mname.parse().unwrap();
                        return quote!(#f(#(#args),*));
                    }
                }
                let f = self.expr(&c.func);
                let args: Vec<_> = c.args.iter().map(|a| self.arg(a)).collect();
                quote!(#f(#(#args),*))
            }
            Expr::MethodCall(m) => {
                if let Some(t) = self.terminal(m) {
                    return t;
                }
                let name = m.method.to_string();
                if ["push", "insert", "extend"].contains(&name.as_str()) && m.args.len() == 1 {
                    if let Expr::MethodCall(d) = strip(&m.receiver) {
                        if let Expr::MethodCall(en) = strip(&d.receiver) {
                            if d.method == "or_default" && en.method == "entry" {
                                let to = format_ident!("vx_{}_at", name);
                                self.rule(&format!("entry(k).or_default().{name}(v) -> {to}(k, v)"));
                                let b = self.expr(&en.receiver);
                                let (k, v) = (self.arg(&en.args[0]), self.arg(&m.args[0]));
                                return quote!(#b.#to(#k, #v));
                            }
                        }
                    }
                }
                if name == "or_insert_with" && m.args.len() == 1 {
                    if let Expr::MethodCall(am) = strip(&m.receiver) {
                        if let (true, Expr::MethodCall(en)) = (am.method == "and_modify", strip(&am.receiver)) {
                            if let (true, Some(Expr::Closure(f)), Some(Expr::Closure(g))) = (en.method == "entry", am.args.first().map(strip), m.args.first().map(strip)) {
                                self.rule("entry(k).and_modify(f).or_insert_with(g) -> take, change, insert");
                                let b = self.expr(&en.receiver);
                                let k = self.arg(&en.args[0]);
                                let p = self.pat(&f.inputs[0]);
                                let (f, g) = (self.expr(&f.body), self.expr(&g.body));
                                return quote!({ let vx_k = #k; let vx_new = match #b.vx_take(&vx_k) { Some(mut vx_v) => { { let #p = &mut vx_v; #f; } vx_v } None => #g }; #b.insert(vx_k, vx_new); });
                            }
                        }
                    }
                }
                if let Some(t) = self.cfg.erase_method.get(&name) {
                    if t == "self" {
                        self.rule(&format!(".{name}() erased (identity)"));
                        return self.expr(&m.receiver);
                    }
                    if let Some(f) = t.strip_prefix("fn:") {
                        let f: TokenStream = f.parse().unwrap();
                        let r = self.expr(&m.receiver);
                        self.rule(&format!(".{name}(..) -> {f}, argument dropped"));
                        return quote!(#f(#r));
                    }
                    self.rule(&format!(".{name}() erased to {t}"));
                    return t.parse().unwrap();
                }
                if let Some(t) = self.opt_method(m) {
                    return t;
                }
                let r = self.expr(&m.receiver);
                let r = match strip(&m.receiver) {
                    Expr::Unary(_) | Expr::Binary(_) | Expr::Reference(_) => quote!((#r)),
                    _ => r,
                };
                let args: Vec<_> = m.args.iter().map(|a| self.arg(a)).collect();
                let is_self = matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
                if is_self && !self.cfg.remap_method.contains_key(&name) {
                    if let Some(t) = self.try_inline(&name, Some(r.clone()), args.clone()) {
                        return t;
                    }
                }
                if let Some(n) = self.cfg.remap_method.get(&name) {
                    let n = n.clone();
                    self.rule(&format!("method {name} reads {n}"));
                    if let Some(f) = n.strip_prefix("fnmut:") {
                        let f: TokenStream = f.parse().unwrap();
                        return quote!(#f(&mut #r #(, #args)*));
                    }
                    if let Some(f) = n.strip_prefix("fnref:") {
                        let f: TokenStream = f.parse().unwrap();
                        return quote!(#f(&#r #(, #args)*));
                    }
                    if let Some(f) = n.strip_prefix("fn:") {
                        let f: TokenStream = f.parse().unwrap();
                        return quote!(#f(#r #(, #args)*));
                    }
                    let n = format_ident!("{}", n);
                    return quote!(#r.#n(#(#args),*));
                }
                let n = &m.method;
                quote!(#r.#n(#(#args),*))
            }
            Expr::Repeat(_) => quote!(#e),
            Expr::Await(a) => self.expr(&a.base),
            _ => self.lost(&format!("unsupported expression {}", e.to_token_stream())),
        }
    }

    fn erased(&mut self, full: &str) -> Option<TokenStream> {
        for (k, v) in &self.cfg.erase_path {
            let hit = match k.strip_suffix("::*") {
                Some(pre) => full.contains(&format!("{pre}::")) || full == pre,
                None => full == *k || full.ends_with(&format!("::{k}")),
            };
            if hit {
                let v = v.clone();
                self.rule(&format!("{full}.. erased to {v}"));
                return Some(v.parse().unwrap());
            }
        }
        None
    }

    /// Option combinators with a closure literal, desugared to `match`
    fn opt_method(&mut self, m: &syn::ExprMethodCall) -> Option<TokenStream> {
        let name = m.method.to_string();
        let o = |s: &mut Self| s.expr(&m.receiver);
        match (name.as_str(), m.args.len()) {
            ("is_some_and", 1) => {
                let r = o(self);
                let v = self.apply(&m.args[0], vec![quote!(vx_o)]);
                self.rule("is_some_and -> match");
                Some(quote!((match #r { Some(vx_o) => #v, None => false })))
            }
            ("is_none_or", 1) => {
                let r = o(self);
                let v = self.apply(&m.args[0], vec![quote!(vx_o)]);
                self.rule("is_none_or -> match");
                Some(quote!((match #r { Some(vx_o) => #v, None => true })))
            }
            ("map_or", 2) => {
                let r = o(self);
                let d = self.expr(&m.args[0]);
                let v = self.apply(&m.args[1], vec![quote!(vx_o)]);
                self.rule("map_or -> match");
                Some(quote!((match #r { Some(vx_o) => #v, None => #d })))
            }
            ("unwrap_or_else", 1) if self.ann.optmap => {
                let r = o(self);
                let v = self.apply(&m.args[0], vec![]);
                Some(quote!((match #r { Some(vx_o) => vx_o, None => #v })))
            }
            ("map", 1) if self.ann.resmap => {
                let r = o(self);
                let v = self.apply(&m.args[0], vec![quote!(vx_o)]);
                self.rule("Result::map -> match");
                Some(quote!((match #r { Ok(vx_o) => Ok(#v), Err(vx_e) => Err(vx_e) })))
            }
            ("map", 1) if self.ann.optmap => {
                let r = o(self);
                let v = self.apply(&m.args[0], vec![quote!(vx_o)]);
                self.rule("Option::map -> match");
                Some(quote!((match #r { Some(vx_o) => Some(#v), None => None })))
            }
            ("and_then", 1) if self.ann.optmap => {
                let r = o(self);
                let v = self.apply(&m.args[0], vec![quote!(vx_o)]);
                self.rule("Option::and_then -> match");
                Some(quote!((match #r { Some(vx_o) => #v, None => None })))
            }
            ("filter", 1) if self.ann.optmap => {
                let r = o(self);
                let v = self.apply(&m.args[0], vec![quote!(&vx_o)]);
                Some(quote!((match #r { Some(vx_o) => if #v { Some(vx_o) } else { None }, None => None })))
            }
            ("unwrap_or", 1) => {
                let r = o(self);
                let d = self.expr(&m.args[0]);
                self.rule("unwrap_or -> match");
                Some(quote!((match #r { Some(vx_o) => vx_o, None => #d })))
            }
            _ => None,
        }
    }

    /// `match s { [] => .., [a, rest @ ..] => .., _ => .. }` as a chain of length tests
    fn slice_match(&mut self, m: &syn::ExprMatch) -> TokenStream {
        self.rule("slice patterns -> length tests");
        let x = self.expr(&m.expr);
        let s = self.fresh("s");
        let mut out = quote!(vx_unreachable());
        let n = m.arms.len();
        for (k, a) in m.arms.iter().enumerate().rev() {
            if a.guard.is_some() {
                self.lost("guard on a slice pattern");
            }
            let b = match &*a.body {
                Expr::Block(b) => self.block(&b.block),
                b => self.expr(b),
            };
            let (cond, binds) = match &a.pat {
                Pat::Wild(_) => (quote!(true), quote!()),
                Pat::Slice(p) => {
                    let mut binds = quote!();
                    let mut open = false;
                    let mut cnt = 0usize;
                    for (i, e) in p.elems.iter().enumerate() {
                        match e {
                            _ if open => self.lost("slice pattern with elements after the rest"),
                            Pat::Wild(_) => cnt += 1,
                            Pat::Rest(_) => open = true,
                            Pat::Ident(d) if d.by_ref.is_none() && d.subpat.is_none() => {
                                let d = &d.ident;
                                binds.extend(quote!(let #d = &#s[#i];));
                                cnt += 1;
                            }
                            Pat::Ident(d) if d.by_ref.is_none() && matches!(d.subpat.as_ref().map(|x| &*x.1), Some(Pat::Rest(_))) => {
                                let d = &d.ident;
                                binds.extend(quote!(let #d = vstd::slice::slice_subrange(#s, #i, #s.len());));
                                open = true;
                            }
                            _ => self.lost("element of a slice pattern"),
                        }
                    }
                    (if open { quote!(#s.len() >= #cnt) } else { quote!(#s.len() == #cnt) }, binds)
                }
                _ => self.lost("mixed slice patterns"),
            };
            let ps = a.pat.to_token_stream().to_string();
            let body = quote!({ __vx_arm!(#ps); #binds #b });
            out = if k + 1 == n { body } else { quote!(if #cond #body else #out) };
            if k + 1 < n && !matches!(a.pat, Pat::Slice(_)) {
                self.lost("wildcard before the last slice pattern");
            }
        }
        quote!({ let #s = #x; #out })
    }
    // ---------- functions ----------
    pub fn function(&mut self, sig: syn::Signature, block: Block, ret: &str) -> String {
        let mut params: Vec<String> = vec![];
        let mut ins: Vec<TokenStream> = vec![];
        let mut pre = TokenStream::new();
        let mut k = 0;
        for a in sig.inputs.iter() {
            match a {
                syn::FnArg::Receiver(r) => {
                    if let Some(s) = &self.ann.selfarg {
                        let n = s.split(':').next().unwrap().trim().to_string();
                        let s: TokenStream = s.parse().unwrap();
                        if !n.ends_with(" self") && n != "self" {
                            self.self_name = Some(format_ident!("{}", n));
                        }
                        ins.push(s);
                    } else {
                        let m = &r.mutability;
                        if r.reference.is_some() {
                            ins.push(quote!(& #m self));
                        } else if m.is_some() {
                            let s = self.fresh("self");
                            pre.extend(quote!(let mut #s = self;));
                            self.self_name = Some(s);
                            ins.push(quote!(self));
                        } else {
                            ins.push(quote!(self));
                        }
                    }
                }
                syn::FnArg::Typed(t) => {
                    k += 1;
                    let name = match &*t.pat {
                        Pat::Ident(i) => i.ident.clone(),
                        p => {
                            let n = self.fresh("p");
                            let p = self.pat(p);
                            pre.extend(quote!(let #p = #n;));
                            n
                        }
                    };
                    if let Pat::Ident(i) = &*t.pat {
                        if i.mutability.is_some() {
                            pre.extend(quote!(let mut #name = #name;));
                        }
                    }
                    params.push(name.to_string());
                    let ty = match self.ann.argty.get(&k) {
                        Some(t) if t == "drop" => {
                            params.pop();
                            params.push(String::new());
                            continue;
                        }
                        Some(t) => t.parse().unwrap(),
                        None => self.ty(&t.ty),
                    };
                    ins.push(quote!(#name: #ty));
                }
            }
        }
        self.ret_kind = match &sig.output {
            syn::ReturnType::Type(_, t) => match &**t {
                Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => String::new(),
            },
            _ => String::new(),
        };
        let rt = match (&self.ann.ret, &sig.output) {
            (Some((_, t)), _) => {
                let t: TokenStream = t.parse().unwrap();
                let r = format_ident!("{}", ret);
                if t.to_string() == "()" { quote!() } else { quote!(-> (#r: #t)) }
            }
            (None, syn::ReturnType::Type(_, t)) => {
                let t = self.ty(t);
                let r = format_ident!("{}", ret);
                quote!(-> (#r: #t))
            }
            _ => quote!(),
        };
        let name = match &self.ann.rename {
            Some(n) => format_ident!("{}", n),
            None => sig.ident.clone(),
        };
        let mut block = block;
        let ret_vec = match &sig.output {
            syn::ReturnType::Type(_, t) => t.to_token_stream().to_string().contains("Result < Vec") || t.to_token_stream().to_string().contains("CResult < Vec"),
            _ => false,
        };
        let mut tc = TryChains { n: 0, ret_vec };
        tc.tail_block(&mut block);
        syn::visit_mut::VisitMut::visit_block_mut(&mut tc, &mut block);
        if tc.n > 0 {
            self.rule("try_fold / try_for_each / collect into a Result -> loop that returns the error");
        }
        if self.ann.boxiter && matches!(&sig.output, syn::ReturnType::Type(_, t) if t.to_token_stream().to_string().starts_with("impl Iterator")) {
            if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
                if matches!(strip(e), Expr::MethodCall(_)) {
                    self.rule("returned iterator materialised as Vec");
                    let x = e.clone();
                    *e = syn::parse_quote!(#x.collect::<Vec<_>>());
                }
            }
        }
        let block = if self.ann.after_let.contains_key("vx_leaf") { leaf_block(&block) } else { block };
        let body = self.block(&block);
        let gens = &self.ann.generics;
        let mut p = Printer { ann: self.ann, loop_no: 0, closure_no: 0, loop_vars: vec![], params: params.clone(), used_loops: 0 };
        let pre = p.print(pre);
        let body = p.print(body);
        let contract = p.subst(&self.ann.contract, None);
        let start = p.subst(&self.ann.start, None);
        let mut q = Printer { ann: self.ann, loop_no: 0, closure_no: 0, loop_vars: vec![], params: vec![], used_loops: 0 };
        let head = q.print(quote!((#(#ins),*) #rt));
        let lack: Vec<usize> = self.ann.loops.keys().filter(|k| **k >= p.loop_no).cloned().collect();
        if !lack.is_empty() {
            self.rule(&format!("note: loop annotations {lack:?} have no loop any more"));
        }
        if self.cfg.contracts_only {
            let contract = match contract.find("decreases") {
                Some(i) => contract[..i].to_string(),
                None => contract,
            };
            return format!("#[verifier::external_body]\npub fn {}{} {}\n{}{{ unimplemented!() }}\n", name, gens, head, contract);
        }
        format!("{}\npub fn {}{} {}\n{}{{\n{}{}{}}}\n", self.ann.attrs, name, gens, head, contract, pre, start, body)
    }
}

/// names every result in tail position: `e` -> `{ let vx_leaf = e; vx_leaf }`
fn leaf_block(b: &Block) -> Block {
    let mut b = b.clone();
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        *e = leaf_expr(e);
    }
    for s in b.stmts.iter_mut() {
        if let Stmt::Expr(e, _) = s {
            leaf_returns(e)
        }
    }
    b
}
fn leaf_returns(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            if let Some(x) = &mut r.expr {
                **x = leaf_expr(x)
            }
        }
        Expr::If(i) => {
            for s in i.then_branch.stmts.iter_mut() {
                if let Stmt::Expr(e, _) = s {
                    leaf_returns(e)
                }
            }
            if let Some((_, x)) = &mut i.else_branch {
                leaf_returns(x)
            }
        }
        Expr::Block(b) => {
            for s in b.block.stmts.iter_mut() {
                if let Stmt::Expr(e, _) = s {
                    leaf_returns(e)
                }
            }
        }
        _ => {}
    }
}
fn leaf_expr(e: &Expr) -> Expr {
    match e {
        Expr::If(i) if i.else_branch.is_some() => {
            let mut i = i.clone();
            i.then_branch = leaf_block(&i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                **x = match &**x {
                    Expr::Block(b) => Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: leaf_block(&b.block) }),
                    x => leaf_expr(x),
                };
            }
            Expr::If(i)
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = leaf_expr(&a.body);
            }
            Expr::Match(m)
        }
        Expr::Block(b) if b.label.is_none() => Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: leaf_block(&b.block) }),
        Expr::Return(_) | Expr::If(_) | Expr::Macro(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => e.clone(),
        _ => syn::parse_quote!({ let vx_leaf = #e; vx_leaf }),
    }
}

/// removes tail `return`s: `return e;` in tail position -> `e`; `if c { return x; } rest` -> `if c { x } else { rest }`
fn detail(b: &Block) -> Option<Block> {
    let mut out = vec![];
    let n = b.stmts.len();
    for (k, s) in b.stmts.iter().enumerate() {
        let last = k + 1 == n;
        match s {
            Stmt::Expr(Expr::Return(r), _) if last => {
                let e = r.expr.as_ref()?;
                out.push(Stmt::Expr((**e).clone(), None));
            }
            Stmt::Expr(e, None) if last => out.push(Stmt::Expr(detail_expr(e)?, None)),
            Stmt::Expr(Expr::If(i), _) if !last && i.else_branch.is_none() && ends_return(&i.then_branch) => {
                let rest = Block { brace_token: b.brace_token, stmts: b.stmts[k + 1..].to_vec() };
                let rest = detail(&rest)?;
                let then = detail(&i.then_branch)?;
                let mut i2 = i.clone();
                i2.then_branch = then;
                i2.else_branch = Some((Default::default(), Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: rest }))));
                out.push(Stmt::Expr(Expr::If(i2), None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            _ => out.push(s.clone()),
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}
fn ends_return(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}
fn detail_expr(e: &Expr) -> Option<Expr> {
    Some(match e {
        Expr::Return(r) => (**r.expr.as_ref()?).clone(),
        Expr::If(i) => {
            let mut i2 = i.clone();
            i2.then_branch = detail(&i.then_branch)?;
            if let Some((t, x)) = &i.else_branch {
                i2.else_branch = Some((*t, Box::new(detail_expr(x)?)));
            }
            Expr::If(i2)
        }
        Expr::Block(b) => {
            let mut b2 = b.clone();
            b2.block = detail(&b.block)?;
            Expr::Block(b2)
        }
        Expr::Match(m) => {
            let mut m2 = m.clone();
            for a in &mut m2.arms {
                *a.body = detail_expr(&a.body)?;
            }
            Expr::Match(m2)
        }
        _ => e.clone(),
    })
}

/// iterator chains that stop at the first error, where that error is what the function returns: rewritten to `for` loops
struct TryChains {
    n: usize,
    ret_vec: bool,
}
impl TryChains {
    fn lower(&mut self, m: &syn::ExprMethodCall, tail: bool) -> Option<Expr> {
        let name = m.method.to_string();
        let wrap = |e: Expr| -> Expr { if tail { syn::parse_quote!(Ok(#e)) } else { e } };
        let parts = |e: &Expr| match strip(e) {
            Expr::Closure(c) => Some((c.inputs.iter().cloned().collect::<Vec<_>>(), (*c.body).clone())),
            _ => None,
        };
        // value of a closure body, `?`-ed
        let val = |b: &Expr| -> Option<(Vec<Stmt>, Expr)> {
            if has_return(b) {
                return None;
            }
            let (mut st, last) = match strip(b) {
                Expr::Block(b) if b.label.is_none() => {
                    let mut st = b.block.stmts.clone();
                    let Some(Stmt::Expr(l, None)) = st.pop() else { return None };
                    (st, l)
                }
                e => (vec![], e.clone()),
            };
            if let Expr::Call(c) = strip(&last) {
                if let Expr::Path(p) = strip(&c.func) {
                    if p.path.is_ident("Ok") && c.args.len() == 1 {
                        return Some((st, c.args[0].clone()));
                    }
                }
            }
            st.retain(|_| true);
            Some((st, syn::parse_quote!((#last)?)))
        };
        let acc = format_ident!("vx_tf{}", self.n);
        match name.as_str() {
            "try_fold" if m.args.len() == 2 => {
                let (ps, b) = parts(&m.args[1])?;
                if ps.len() != 2 {
                    return None;
                }
                let (st, e) = val(&b)?;
                let (src, init) = (&m.receiver, &m.args[0]);
                let (p, x) = (&ps[0], &ps[1]);
                self.n += 1;
                let w = wrap(syn::parse_quote!(#acc));
                Some(syn::parse_quote!({ let mut #acc = #init; for #x in #src { let #p = #acc; #(#st)* #acc = #e; } #w }))
            }
            "try_for_each" if m.args.len() == 1 => {
                let (ps, b) = parts(&m.args[0])?;
                let (st, e) = val(&b)?;
                let src = &m.receiver;
                let x = ps.first()?;
                self.n += 1;
                let w = wrap(syn::parse_quote!(()));
                Some(syn::parse_quote!({ for #x in #src { #(#st)* #e; } #w }))
            }
            "collect" if m.args.is_empty() => {
                let into_result = match &m.turbofish {
                    Some(t) => t.to_token_stream().to_string().contains("Result < Vec"),
                    None => tail && self.ret_vec,
                };
                if !into_result {
                    return None;
                }
                let Expr::MethodCall(mm) = strip(&m.receiver) else { return None };
                if mm.method != "map" {
                    return None;
                }
                let (ps, b) = match parts(&mm.args[0]) {
                    Some(x) => x,
                    None => {
                        let f = &mm.args[0];
                        (vec![syn::parse_quote!(vx_item)], syn::parse_quote!(#f(vx_item)))
                    }
                };
                let (st, e) = val(&b)?;
                let src = &mm.receiver;
                let x = ps.first()?;
                self.n += 1;
                let w = wrap(syn::parse_quote!(#acc));
                Some(syn::parse_quote!({ let mut #acc = Vec::new(); for #x in #src { #(#st)* let vx_ok = #e; #acc.push(vx_ok); } #w }))
            }
            _ => None,
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::If(i) if i.else_branch.is_some() => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::MethodCall(m) => {
                if let Some(x) = self.lower(&m.clone(), true) {
                    *e = x;
                }
            }
            _ => {}
        }
    }
}
fn has_return(e: &Expr) -> bool {
    struct R(bool);
    impl<'a> syn::visit::Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut r = R(false);
    syn::visit::Visit::visit_expr(&mut r, e);
    r.0
}
impl syn::visit_mut::VisitMut for TryChains {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = strip(&t.expr) {
                if let Some(x) = self.lower(&m.clone(), false) {
                    *e = x;
                }
            }
        }
    }
}
