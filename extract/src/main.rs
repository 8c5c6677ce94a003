//! vx-extract: mechanical extraction of functions and types from /repo's Rust sources into a Verus file.
//!
//! usage: vx-extract REPO_ROOT SPEC_FILE OUT_FILE REPORT_FILE
//!
//! The spec file holds Verus text (specification functions, lemmas, contracts for external types)
//! interleaved with directives (lines starting with `@`) that name the items of /repo to extract and the
//! contract, loop invariants and ghost hints attached to them. Executable code is never written in the
//! spec file: every executable body comes from /repo's current source, rewritten only by the rules in
//! `lower.rs` (each one a standard Rust desugaring or an erasure; every application is listed in the report).
mod lower;
mod print;

use lower::Lower;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

#[derive(Default, Clone)]
pub struct Cfg {
    pub erase_generics: BTreeSet<String>,
    pub subst_type: BTreeMap<String, String>,
    pub erase_path: BTreeMap<String, String>,
    pub erase_macro: BTreeMap<String, String>,
    pub drop_ident: BTreeSet<String>,
    pub remap_method: BTreeMap<String, String>,
    pub remap_path: BTreeMap<String, String>,
    pub map_ident: BTreeSet<String>,
    pub bag_entries: bool,
    pub iter_via: BTreeMap<String, String>,
    pub known: BTreeSet<String>,
    pub byval_iter: BTreeSet<String>,
    pub iter_methods: BTreeSet<String>,
    pub seq_methods: BTreeSet<String>,
    pub iter_results: BTreeSet<String>,
    pub erase_method: BTreeMap<String, String>,
    pub contracts_only: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Ann {
    pub contract: String,
    pub start: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub arms: Vec<(String, String)>,
    pub argty: BTreeMap<usize, String>,
    pub ret: Option<(String, String)>,
    pub attrs: String,
    pub generics: String,
    pub rename: Option<String>,
    pub exec_mode: String,
    pub selfarg: Option<String>,
    pub letty: BTreeMap<String, String>,
    pub after_let: BTreeMap<String, String>,
    pub collect: BTreeMap<usize, String>,
    pub optmap: bool,
    pub resmap: bool,
    pub fmt: bool,
    pub boxiter: bool,
    pub impl_head: Option<String>,
}

pub fn die(msg: String) -> ! {
    eprintln!("EXTRACT-LOST: {msg}");
    std::process::exit(3);
}

fn rs_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            rs_files(&p, out)
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p)
        }
    }
}

pub struct FileCtx {
    pub items: Vec<syn::Item>,
}

/// All fns reachable by name in a list of items: (self type, trait, fn)
pub enum FnRef {
    Free(syn::ItemFn),
    Method(String, Option<String>, syn::ImplItemFn),
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        syn::Type::Paren(p) => type_name(&p.elem),
        _ => String::new(),
    }
}

/// not compiled in the default build of the workspace
fn inactive(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = quote::ToTokens::to_token_stream(a).to_string().replace(' ', "");
            t == "#[cfg(not(feature=\"sparql\"))]" || t == "#[cfg(test)]" || t == "#[cfg(target_family=\"wasm\")]"
        }
    })
}
pub fn all_fns(items: &[syn::Item], out: &mut Vec<FnRef>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if inactive(&f.attrs) => {}
            syn::Item::Impl(f) if inactive(&f.attrs) => {}
            syn::Item::Mod(f) if inactive(&f.attrs) => {}
            syn::Item::Fn(f) => out.push(FnRef::Free(f.clone())),
            syn::Item::Impl(im) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| quote::ToTokens::to_token_stream(p.segments.last().unwrap()).to_string().replace(' ', ""));
                for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        if inactive(&f.attrs) {
                            continue;
                        }
                        out.push(FnRef::Method(ty.clone(), tr.clone(), f.clone()))
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            out.push(FnRef::Method(
                                t.ident.to_string(),
                                None,
                                syn::ImplItemFn {
                                    attrs: vec![],
                                    vis: syn::Visibility::Inherited,
                                    defaultness: None,
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                },
                            ))
                        }
                    }
                }
            }
            syn::Item::Mod(m) => {
                if m.ident == "tests" || m.ident == "test" {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    all_fns(its, out)
                }
            }
            _ => {}
        }
    }
}

fn load(p: &Path) -> Option<FileCtx> {
    let s = fs::read_to_string(p).ok()?;
    let f = syn::parse_file(&s).ok()?;
    Some(FileCtx { items: f.items })
}

fn find_fn(fc: &FileCtx, spec: &str) -> Option<FnRef> {
    let mut v = Vec::new();
    all_fns(&fc.items, &mut v);
    let (ty, name) = match spec.rsplit_once("::") {
        Some((t, n)) => (Some(t.to_string()), n.to_string()),
        None => (None, spec.to_string()),
    };
    let (ty, tr) = match ty {
        Some(t) => match t.split_once('@') {
            Some((a, b)) => (Some(a.to_string()), Some(b.to_string())),
            None => (Some(t), None),
        },
        None => (None, None),
    };
    v.into_iter().find(|f| match f {
        FnRef::Free(x) => ty.is_none() && x.sig.ident == name,
        FnRef::Method(t, trt, x) => {
            ty.as_ref() == Some(t) && x.sig.ident == name && (tr.is_none() || tr == *trt || tr.as_deref() == trt.as_deref().and_then(|t| t.split('<').next()))
        }
    })
}

fn find_type(items: &[syn::Item], name: &str) -> Option<syn::Item> {
    for it in items {
        match it {
            syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_type(its, name) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

struct State {
    repo: PathBuf,
    cfg: Cfg,
    file: String,
    cache: BTreeMap<String, FileCtx>,
    out: String,
    report: Vec<String>,
    fns: usize,
}

impl State {
    fn candidates(&self) -> Vec<String> {
        // the named file first, then every file of the same crate
        let mut v = vec![self.file.clone()];
        let crate_dir = self.file.split("/src/").next().unwrap_or("").to_string();
        let mut fs_ = Vec::new();
        rs_files(&self.repo.join(&crate_dir).join("src"), &mut fs_);
        for f in fs_ {
            let rel = f.strip_prefix(&self.repo).unwrap().to_string_lossy().to_string();
            if rel != self.file && !rel.contains("/tests/") {
                v.push(rel)
            }
        }
        v
    }
    fn get(&mut self, rel: &str) -> bool {
        if !self.cache.contains_key(rel) {
            match load(&self.repo.join(rel)) {
                Some(c) => {
                    self.cache.insert(rel.to_string(), c);
                }
                None => return false,
            }
        }
        true
    }
    fn locate_fn(&mut self, spec: &str) -> (String, FnRef) {
        for c in self.candidates() {
            if self.get(&c) {
                if let Some(f) = find_fn(&self.cache[&c], spec) {
                    return (c, f);
                }
            }
        }
        die(format!("function {spec} not found (looked in {} and its crate)", self.file))
    }

    fn emit_type(&mut self, args: &str) {
        let mut it = args.split_whitespace();
        let kind = it.next().unwrap_or("");
        let name = it.next().unwrap_or("");
        let mut attrs = String::new();
        let mut drop = BTreeSet::new();
        let mut life = false;
        for a in it {
            life |= a == "life";
            if let Some(d) = a.strip_prefix("derive=") {
                attrs = format!("#[derive({d})]");
            }
            if let Some(d) = a.strip_prefix("drop=") {
                for x in d.split(',') {
                    drop.insert(x.to_string());
                }
            }
        }
        for c in self.candidates() {
            if !self.get(&c) {
                continue;
            }
            if let Some(item) = find_type(&self.cache[&c].items, name) {
                let mut txt = lower::lower_type(&self.cfg, item, &drop, &mut self.report);
                if life {
                    txt = txt.replace("& ", "&'a ").replacen(&format!("struct {name}"), &format!("struct {name}<'a>"), 1);
                }
                self.out.push_str(&format!("// extracted {kind} {name} from {c}\n{attrs}\n{txt}\n"));
                self.report.push(format!("type {name} from {c} (attributes and derives dropped{})", if drop.is_empty() { String::new() } else { format!("; fields dropped: {drop:?}") }));
                return;
            }
        }
        die(format!("type {name} not found"))
    }

    fn emit_fn(&mut self, spec: &str, ret: &str, ann: Ann) {
        let (file, f) = self.locate_fn(spec);
        let mut fns = Vec::new();
        all_fns(&self.cache[&file].items, &mut fns);
        let head = ann.impl_head.clone();
        let mut lw = Lower::new(&self.cfg, &ann, &fns, spec);
        let (ty, sig, block) = match f {
            FnRef::Free(x) => (None, x.sig, *x.block),
            FnRef::Method(t, _, x) => (Some(t), x.sig, x.block),
        };
        lw.self_ty = ty.clone();
        let txt = lw.function(sig, block, ret);
        let rules = lw.rules.iter().cloned().collect::<Vec<_>>().join("; ");
        let ty = ty.map(|t| self.cfg.subst_type.get(&t).cloned().unwrap_or(t));
        match ty {
            Some(_) if head.as_deref() == Some("free") => self.out.push_str(&format!("// extracted {spec} from {file}\n{txt}\n")),
            Some(_) if head.is_some() => self.out.push_str(&format!("// extracted {spec} from {file}\n{} {{\n{txt}\n}}\n", head.unwrap())),
            Some(t) => self.out.push_str(&format!("// extracted {spec} from {file}\nimpl {t} {{\n{txt}\n}}\n")),
            None => self.out.push_str(&format!("// extracted {spec} from {file}\n{txt}\n")),
        }
        self.report.push(format!("{} {spec} from {file} [{rules}]", if self.cfg.contracts_only { "contract-of" } else { "fn" }));
        if !self.cfg.contracts_only {
            self.fns += 1;
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage");
        std::process::exit(2)
    }
    let repo = PathBuf::from(&a[1]);
    let specp = PathBuf::from(&a[2]);
    let mut st = State {
        repo,
        cfg: Cfg::default(),
        file: String::new(),
        cache: BTreeMap::new(),
        out: String::new(),
        report: Vec::new(),
        fns: 0,
    };
    let lines = read_spec(&specp);
    // first pass: names of all functions under contract (never inlined)
    for l in &lines {
        if let Some(r) = l.strip_prefix("@fn ") {
            let n = r.split_whitespace().next().unwrap_or("");
            st.cfg.known.insert(n.rsplit("::").next().unwrap().to_string());
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let Some(d) = l.strip_prefix('@') else {
            st.out.push_str(&l);
            st.out.push('\n');
            continue;
        };
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        let rest = rest.trim();
        match cmd {
            "file" => st.file = rest.to_string(),
            "erase-generics" => rest.split_whitespace().for_each(|x| {
                st.cfg.erase_generics.insert(x.into());
            }),
            "subst-type" => {
                let (a, b) = rest.split_once(' ').unwrap();
                st.cfg.subst_type.insert(a.into(), b.trim().into());
            }
            "erase-path" => {
                let (a, b) = rest.split_once(' ').unwrap();
                st.cfg.erase_path.insert(a.into(), b.trim().into());
            }
            "erase-method" => {
                let (a, b) = rest.split_once(' ').unwrap();
                st.cfg.erase_method.insert(a.into(), b.trim().into());
            }
            "erase-macro" => {
                let (a, b) = rest.split_once(' ').unwrap();
                st.cfg.erase_macro.insert(a.into(), b.trim().into());
            }
            "drop-ident" => rest.split_whitespace().for_each(|x| {
                st.cfg.drop_ident.insert(x.into());
            }),
            "remap-method" => {
                let (a, b) = rest.split_once(' ').unwrap();
                st.cfg.remap_method.insert(a.into(), b.trim().into());
            }
            "remap-path" => {
                let (a, b) = rest.split_once(' ').unwrap();
                st.cfg.remap_path.insert(a.into(), b.trim().into());
            }
            "bag-ident" => {
                st.cfg.bag_entries = true;
                rest.split_whitespace().for_each(|x| {
                    st.cfg.map_ident.insert(x.into());
                })
            }
            "map-ident" => rest.split_whitespace().for_each(|x| {
                st.cfg.map_ident.insert(x.into());
            }),
            "iter-via" => {
                let (a, b) = rest.split_once(' ').unwrap();
                st.cfg.iter_via.insert(a.into(), b.trim().into());
            }
            "byval-iter" => rest.split_whitespace().for_each(|x| {
                st.cfg.byval_iter.insert(x.into());
            }),
            "iter-result" => rest.split_whitespace().for_each(|x| {
                st.cfg.iter_results.insert(x.into());
            }),
            "seq-method" => rest.split_whitespace().for_each(|x| {
                st.cfg.seq_methods.insert(x.into());
            }),
            "iter-method" => rest.split_whitespace().for_each(|x| {
                st.cfg.iter_methods.insert(x.into());
            }),
            "known" => rest.split_whitespace().for_each(|x| {
                st.cfg.known.insert(x.into());
            }),
            "contracts-only" => st.cfg.contracts_only = rest == "on",
            "type" => st.emit_type(rest),
            "fn" => {
                let mut it = rest.split_whitespace();
                let spec = it.next().unwrap().to_string();
                let ret = it.next().unwrap_or("r").to_string();
                let mut ann = Ann::default();
                let mut cur: Option<Box<dyn Fn(&mut Ann, &str)>> =
                    Some(Box::new(|a: &mut Ann, s: &str| a.contract.push_str(s)));
                loop {
                    if i >= lines.len() {
                        die(format!("unterminated @fn {spec}"))
                    }
                    let l = lines[i].clone();
                    i += 1;
                    if let Some(d) = l.strip_prefix('@') {
                        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
                        let rest = rest.trim().to_string();
                        let n = rest.split_whitespace().next().and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
                        let tail = rest.split_once(' ').map(|x| x.1.trim().to_string()).unwrap_or_default();
                        match cmd {
                            "endfn" => break,
                            "start" => cur = Some(Box::new(|a, s| a.start.push_str(s))),
                            "loop" => cur = Some(Box::new(move |a, s| a.loops.entry(n).or_default().push_str(s))),
                            "loopstart" => cur = Some(Box::new(move |a, s| a.loop_start.entry(n).or_default().push_str(s))),
                            "loopend" => cur = Some(Box::new(move |a, s| a.loop_end.entry(n).or_default().push_str(s))),
                            "loopafter" => cur = Some(Box::new(move |a, s| a.loop_after.entry(n).or_default().push_str(s))),
                            "loopbefore" => cur = Some(Box::new(move |a, s| a.loop_before.entry(n).or_default().push_str(s))),
                            "closure" => cur = Some(Box::new(move |a, s| a.closures.entry(n).or_default().push_str(s))),
                            "arm" => {
                                ann.arms.push((rest.replace(' ', ""), String::new()));
                                cur = Some(Box::new(|a, s| a.arms.last_mut().unwrap().1.push_str(s)));
                            }
                            "argty" => {
                                ann.argty.insert(n, tail);
                            }
                            "letty" => {
                                let (a, b) = rest.split_once(' ').unwrap();
                                ann.letty.insert(a.into(), b.into());
                            }
                            "afterlet" => cur = Some(Box::new(move |a, s| a.after_let.entry(rest.clone()).or_default().push_str(s))),
                            "leaf" => cur = Some(Box::new(|a, s| a.after_let.entry("vx_leaf".into()).or_default().push_str(s))),
                            "collect" => {
                                ann.collect.insert(n, tail);
                            }
                            "impl" => ann.impl_head = Some(rest),
                            "optmap" => ann.optmap = true,
                            "resmap" => ann.resmap = true,
                            "fmt" => ann.fmt = true,
                            "boxiter" => ann.boxiter = true,
                            "selfarg" => ann.selfarg = Some(rest),
                            "ret" => ann.ret = Some((ret.clone(), rest)),
                            "attrs" => ann.attrs = rest,
                            "generics" => ann.generics = rest,
                            "rename" => ann.rename = Some(rest),
                            _ => die(format!("unknown directive @{cmd} in @fn {spec}")),
                        }
                    } else if let Some(f) = &cur {
                        f(&mut ann, &format!("{l}\n"));
                    }
                }
                st.emit_fn(&spec, &ret, ann);
            }
            _ => die(format!("unknown directive @{cmd}")),
        }
    }
    if st.fns == 0 {
        die("no function extracted".into())
    }
    fs::write(&a[3], &st.out).unwrap();
    fs::write(&a[4], st.report.join("\n") + "\n").unwrap();
}

fn read_spec(p: &Path) -> Vec<String> {
    let s = fs::read_to_string(p).unwrap_or_else(|e| die(format!("spec {p:?}: {e}")));
    let mut out = Vec::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("@include-contracts ") {
            out.push("@contracts-only on".into());
            out.extend(read_spec(&p.parent().unwrap().join(r.trim())));
            out.push("@contracts-only off".into());
        } else if let Some(r) = l.strip_prefix("@include ") {
            out.extend(read_spec(&p.parent().unwrap().join(r.trim())));
        } else {
            out.push(l.to_string());
        }
    }
    out
}
