//! Template directives and item lookup.
use crate::{print, xform, Log};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::str::FromStr;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub ret: String,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub attrs: String,
    pub loops: Vec<(String, String)>,
    pub loop_entry: Vec<(String, String)>,
    pub loop_end: Vec<(String, String)>,
    pub loop_exit: Vec<(String, String)>,
    pub loop_pre: Vec<(String, String)>,
    pub after_call: Vec<(String, String)>,
    pub opts: BTreeSet<String>,
    pub rename: Option<String>,
    pub subst: Vec<(String, String)>,
}

pub enum Seg {
    Text(String),
    Types { file: String, names: Vec<String>, opts: BTreeSet<String> },
    Fn(FnSpec),
}

pub struct Repo {
    root: PathBuf,
    files: HashMap<String, Rc<syn::File>>,
}

impl Repo {
    pub fn file(&mut self, f: &str) -> Result<Rc<syn::File>, String> {
        if let Some(x) = self.files.get(f) {
            return Ok(x.clone());
        }
        let p = self.root.join(f);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: {}: {}", f, e))?;
        let parsed = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {}", f, e))?;
        let rc = Rc::new(parsed);
        self.files.insert(f.to_string(), rc.clone());
        Ok(rc)
    }
}

fn parse(path: &Path, out: &mut Vec<Seg>) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let mut cur_text = String::new();
    let mut cur_fn: Option<FnSpec> = None;
    let mut sect = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (k, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            if cur_fn.is_none() {
                match k {
                    "include" => {
                        out.push(Seg::Text(std::mem::take(&mut cur_text)));
                        parse(&path.parent().unwrap().join(rest), out)?;
                    }
                    "format" => crate::xform::GROUP_FORMAT.store(rest == "grouped", std::sync::atomic::Ordering::Relaxed),
                    "len" => crate::xform::LEN_TRAITS.store(rest == "traits", std::sync::atomic::Ordering::Relaxed),
                    "vec" => crate::xform::VEC_CALLS.store(rest == "calls", std::sync::atomic::Ordering::Relaxed),
                    "types" => {
                        out.push(Seg::Text(std::mem::take(&mut cur_text)));
                        let (f, n) = rest.split_once(": ").ok_or("types: missing ': '")?;
                        let mut names = vec![];
                        let mut opts = BTreeSet::new();
                        for w in n.split_whitespace() {
                            if let Some(o) = w.strip_prefix('+') {
                                opts.insert(o.to_string());
                            } else {
                                names.push(w.to_string());
                            }
                        }
                        out.push(Seg::Types { file: f.trim().to_string(), names, opts });
                    }
                    "fn" => {
                        out.push(Seg::Text(std::mem::take(&mut cur_text)));
                        let (f, n) = rest.split_once(": ").ok_or("fn: missing ': '")?;
                        let mut fs = FnSpec { file: f.trim().into(), ret: "r".into(), ..Default::default() };
                        for (i, w) in n.split_whitespace().enumerate() {
                            if i == 0 {
                                fs.path = w.to_string();
                            } else if let Some(o) = w.strip_prefix("rename=") {
                                fs.rename = Some(o.to_string());
                            } else if let Some(o) = w.strip_prefix('+') {
                                fs.opts.insert(o.to_string());
                            }
                        }
                        cur_fn = Some(fs);
                        sect = "spec".into();
                    }
                    _ => return Err(format!("{}: unknown directive {}", path.display(), d)),
                }
            } else if k == "endfn" {
                out.push(Seg::Fn(cur_fn.take().unwrap()));
            } else if k == "ret" {
                cur_fn.as_mut().unwrap().ret = rest.to_string();
            } else if k == "subst" {
                let (a, b) = rest.split_once(" => ").ok_or("subst: missing =>")?;
                cur_fn.as_mut().unwrap().subst.push((a.trim().into(), b.trim().into()));
            } else {
                sect = d.to_string();
            }
            continue;
        }
        match cur_fn.as_mut() {
            None => {
                cur_text.push_str(line);
                cur_text.push('\n');
            }
            Some(f) => {
                let l = format!("{}\n", line);
                let (k, sel) = sect.split_once(char::is_whitespace).unwrap_or((&sect, "*"));
                let sel = sel.trim().to_string();
                let add = |v: &mut Vec<(String, String)>| {
                    if let Some(x) = v.iter_mut().find(|x| x.0 == sel) {
                        x.1.push_str(&l)
                    } else {
                        v.push((sel.clone(), l.clone()))
                    }
                };
                match k {
                    "spec" => f.spec.push_str(&l),
                    "entry" => f.entry.push_str(&l),
                    "exit" => f.exit.push_str(&l),
                    "attrs" => f.attrs.push_str(&l),
                    "loop" => add(&mut f.loops),
                    "loopentry" => add(&mut f.loop_entry),
                    "loopend" => add(&mut f.loop_end),
                    "loopexit" => add(&mut f.loop_exit),
                    "looppre" => add(&mut f.loop_pre),
                    "after" => add(&mut f.after_call),
                    _ => return Err(format!("unknown section {}", sect)),
                }
            }
        }
    }
    if cur_fn.is_some() {
        return Err(format!("{}: unterminated //@fn", path.display()));
    }
    out.push(Seg::Text(cur_text));
    Ok(())
}

pub struct FoundFn {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<syn::Type>,
    pub self_name: Option<String>,
    pub lines: (usize, usize),
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("cfg(kani)") || s.contains("cfg(decy_verif)")
    })
}

fn ty_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

pub fn find_fn(file: &syn::File, path: &str) -> Option<FoundFn> {
    let segs: Vec<&str> = path.split("::").collect();
    find_in(&file.items, &segs)
}

fn find_in(items: &[syn::Item], segs: &[&str]) -> Option<FoundFn> {
    use syn::spanned::Spanned;
    for it in items {
        match it {
            syn::Item::Fn(f) if segs.len() == 1 && f.sig.ident == segs[0] && !is_cfg_test(&f.attrs) => {
                let sp = f.span();
                return Some(FoundFn {
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    self_ty: None,
                    self_name: None,
                    lines: (sp.start().line, sp.end().line),
                });
            }
            syn::Item::Impl(im) if segs.len() == 2 && !is_cfg_test(&im.attrs) => {
                if ty_name(&im.self_ty).as_deref() == Some(segs[0]) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == segs[1] && !is_cfg_test(&f.attrs) {
                                let sp = f.span();
                                return Some(FoundFn {
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    self_ty: Some((*im.self_ty).clone()),
                                    self_name: Some(segs[0].to_string()),
                                    lines: (sp.start().line, sp.end().line),
                                });
                            }
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_cfg_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    if let Some(x) = find_in(items, segs) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// constants of the file, by name (inlined at their uses)
pub fn consts(file: &syn::File) -> HashMap<String, (syn::Type, syn::Expr)> {
    let mut m = HashMap::new();
    for it in &file.items {
        if let syn::Item::Const(c) = it {
            if !is_cfg_test(&c.attrs) {
                m.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone()));
            }
        }
    }
    m
}

fn derives(attrs: &[syn::Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.segments.last() {
                    s.insert(i.ident.to_string());
                }
                Ok(())
            });
        }
    }
    s
}

fn widen(fields: &mut syn::Fields, is_struct: bool) {
    for f in fields.iter_mut() {
        f.attrs.clear();
        f.vis = if is_struct { syn::parse_quote!(pub) } else { syn::Visibility::Inherited };
    }
}

fn emit_type(file: &syn::File, name: &str, opts: &BTreeSet<String>, log: &mut Log) -> Result<String, String> {
    let mut ts = TokenStream::new();
    let mut der = BTreeSet::new();
    let mut found = false;
    let mut gen = quote!();
    for it in &file.items {
        match it {
            syn::Item::Enum(e) if e.ident == name => {
                let mut e = e.clone();
                der = derives(&e.attrs);
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    widen(&mut v.fields, false);
                }
                gen = e.generics.to_token_stream();
                ts = e.to_token_stream();
                found = true;
            }
            syn::Item::Struct(e) if e.ident == name => {
                let mut e = e.clone();
                der = derives(&e.attrs);
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                widen(&mut e.fields, true);
                syn::visit_mut::VisitMut::visit_item_struct_mut(&mut crate::xform::StdPaths, &mut e);
                gen = e.generics.to_token_stream();
                ts = e.to_token_stream();
                found = true;
            }
            syn::Item::Type(e) if e.ident == name => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                ts = e.to_token_stream();
                found = true;
            }
            syn::Item::Const(e) if e.ident == name => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                ts = e.to_token_stream();
                found = true;
            }
            _ => {}
        }
    }
    if !found {
        return Err(format!("lost anchor: type {} not found", name));
    }
    log.types.push(name.to_string());
    let id = quote::format_ident!("{}", name);
    let mut o = String::new();
    if opts.contains("noderive") {
        der.clear();
    }
    if der.contains("Copy") {
        o.push_str("#[derive(Clone, Copy)]\n");
    }
    o.push_str("#[allow(inconsistent_fields)]\n");
    o.push_str(&print::print(ts));
    o.push('\n');
    if der.contains("Clone") && !der.contains("Copy") {
        o.push_str(&print::print(quote! {
            impl #gen Clone for #id #gen { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        }));
        o.push('\n');
    }
    if der.contains("PartialEq") && !opts.contains("noeq") {
        o.push_str(&print::print(quote! {
            impl #gen PartialEq for #id #gen { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
            impl #gen vstd::std_specs::cmp::PartialEqSpecImpl for #id #gen {
                open spec fn obeys_eq_spec() -> bool { true }
                open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
            }
        }));
        o.push('\n');
    }
    if der.contains("Default") && opts.contains("default") {
        log.d("derive-default");
    }
    Ok(o)
}

pub fn pick<'a>(v: &'a [(String, String)], ord: usize, kind: &str) -> String {
    let so = ord.to_string();
    let mut s = String::new();
    for (k, t) in v {
        if k.split(',').any(|k| {
            let k = k.trim();
            k == "*" || k == so || k == kind
        }) {
            s.push_str(t);
        }
    }
    s
}

pub fn toks(s: &str) -> Result<TokenStream, String> {
    TokenStream::from_str(s).map_err(|e| format!("bad template tokens: {}: {}", e, s))
}

pub fn expand(root: &str, tpl: &str, log: &mut Log) -> Result<String, String> {
    let mut segs = vec![];
    parse(Path::new(tpl), &mut segs)?;
    let mut repo = Repo { root: PathBuf::from(root), files: HashMap::new() };
    // functions under contract, by (file, path)
    let mut known: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    // a helper that may go: its callers are then proved without it
    let mut gone = vec![];
    for s in &segs {
        if let Seg::Fn(f) = s {
            if f.opts.contains("optional") && find_fn(&*repo.file(&f.file)?, &f.path).is_none() {
                log.gone.push(f.path.clone());
                gone.push((f.file.clone(), f.path.clone()));
                continue;
            }
            known.entry(f.file.clone()).or_default().insert(f.path.clone());
        }
    }
    let mut out = String::new();
    let mut emitted_helpers: BTreeSet<(String, String)> = BTreeSet::new();
    for s in segs {
        match s {
            Seg::Text(t) => out.push_str(&t),
            Seg::Types { file, names, opts } => {
                let f = repo.file(&file)?;
                for n in names {
                    out.push_str(&emit_type(&f, &n, &opts, log)?);
                }
            }
            Seg::Fn(spec) if gone.contains(&(spec.file.clone(), spec.path.clone())) => {}
            Seg::Fn(spec) => {
                let f = repo.file(&spec.file)?;
                let none = BTreeSet::new();
                let kn = known.get(&spec.file).unwrap_or(&none).clone();
                let mut helpers = vec![];
                let text = emit_fn(&f, &spec, &kn, &mut helpers, log)?;
                out.push_str(&text);
                out.push('\n');
                // helpers that could not be inlined: emitted without a contract
                let mut i = 0;
                while i < helpers.len() {
                    let h = helpers[i].clone();
                    i += 1;
                    if !emitted_helpers.insert((spec.file.clone(), h.clone())) {
                        continue;
                    }
                    let hs = FnSpec { file: spec.file.clone(), path: h.clone(), ret: "r".into(), ..Default::default() };
                    let t = emit_fn(&f, &hs, &kn, &mut helpers, log)?;
                    log.helpers.push(h);
                    out.push_str(&t);
                    out.push('\n');
                }
            }
        }
    }
    Ok(out)
}

fn emit_fn(
    file: &syn::File,
    spec: &FnSpec,
    known: &BTreeSet<String>,
    helpers: &mut Vec<String>,
    log: &mut Log,
) -> Result<String, String> {
    let found = find_fn(file, &spec.path)
        .ok_or_else(|| format!("lost anchor: fn {} not found in {}", spec.path, spec.file))?;
    let lines = found.lines;
    let ts = xform::emit(file, found, spec, known, helpers, log)
        .map_err(|e| format!("{}::{}: {}", spec.file, spec.path, e))?;
    log.fns.push((spec.path.clone(), spec.file.clone(), lines.0, lines.1));
    let mut text = String::new();
    text.push_str(&format!("// from {}:{} {}\n", spec.file, lines.0, spec.path));
    text.push_str(&print::print(ts));
    text.push('\n');
    Ok(text)
}
