//! Desugaring of the extracted executable text into the subset Verus accepts.
use crate::template::{consts, find_fn, pick, toks, FnSpec, FoundFn};
use crate::Log;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Pat, Stmt};

pub fn emit(
    file: &syn::File,
    mut found: FoundFn,
    spec: &FnSpec,
    known: &BTreeSet<String>,
    helpers: &mut Vec<String>,
    log: &mut Log,
) -> Result<TokenStream, String> {
    let external = spec.opts.contains("external_body");
    let mut body = quote!({ unimplemented!() });
    if external {
        log.d("external_body (executable text not verified)");
    } else {
        // inline helpers that are not under contract
        let self_name = found.self_name.clone();
        for _ in 0..6 {
            let mut inl = Inliner {
                file,
                known,
                self_name: self_name.clone(),
                own: spec.path.clone(),
                changed: false,
                helpers,
                log,
                n: 0,
                stack: vec![],
            };
            inl.visit_block_mut(&mut found.block);
            if !inl.changed {
                break;
            }
        }
        let mut x = X {
            spec,
            ord: 0,
            err: None,
            log,
            consts: consts(file),
            exit: if spec.exit.trim().is_empty() { None } else { Some(toks(&spec.exit)?) },
            in_closure: 0,
            tmp: 0,
            conts: vec![],
            loops: vec![],
        };
        StdPaths.visit_block_mut(&mut found.block);
        x.visit_block_mut(&mut found.block);
        if let Some(e) = x.err {
            return Err(e);
        }
        let loops = std::mem::take(&mut x.loops);
        for (o, k, none) in &loops {
            if *none {
                x.log.lost.push(format!("{}: loop {} ({}) has no invariant", spec.path, o, k));
            }
        }
        for (keys, _) in &spec.loops {
            for key in keys.split(',').map(|k| k.trim()) {
                if key != "*" && !loops.iter().any(|(o, k, _)| key == o.to_string() || key == k) {
                    x.log.lost.push(format!("{}: no loop {}", spec.path, key));
                }
            }
        }
        let entry = toks(&spec.entry)?;
        let b = &found.block;
        let stmts = &b.stmts;
        body = if let Some(ex) = x.exit {
            quote!({ #entry let __r = { #(#stmts)* }; #ex __r })
        } else {
            quote!({ #entry #(#stmts)* })
        };
    }
    let name = match &spec.rename {
        Some(n) => format_ident!("{}", n),
        None => found.sig.ident.clone(),
    };
    let gen = &found.sig.generics;
    let wh = &found.sig.generics.where_clause;
    let (gi, _, _) = gen.split_for_impl();
    let inputs = &found.sig.inputs;
    let ret = format_ident!("{}", spec.ret);
    let output = match &found.sig.output {
        syn::ReturnType::Default => quote!(),
        syn::ReturnType::Type(_, t) => {
            if matches!(**t, syn::Type::ImplTrait(_)) {
                return Err("unsupported: impl Trait return type".into());
            }
            quote!(-> (#ret: #t))
        }
    };
    let sp = toks(&spec.spec)?;
    let attrs = toks(&spec.attrs)?;
    let ext = if external { quote!(#[verifier::external_body]) } else { quote!() };
    let f = quote! {
        #attrs #ext
        #[verifier::loop_isolation(false)]
        pub fn #name #gi (#inputs) #output #wh #sp #body
    };
    Ok(match &found.self_ty {
        Some(t) => {
            let g = match t {
                syn::Type::Path(p) => lifetimes(&p.path),
                _ => quote!(),
            };
            quote!(impl #g #t { #f })
        }
        None => f,
    })
}

fn lifetimes(p: &syn::Path) -> TokenStream {
    if let Some(l) = p.segments.last() {
        if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
            let v: Vec<_> = a
                .args
                .iter()
                .filter_map(|a| match a {
                    syn::GenericArgument::Lifetime(l) if l.ident != "_" => Some(l.clone()),
                    _ => None,
                })
                .collect();
            if !v.is_empty() {
                return quote!(<#(#v),*>);
            }
        }
    }
    quote!()
}

// ------------------------------------------------------------------ helper inlining

struct Inliner<'a> {
    file: &'a syn::File,
    known: &'a BTreeSet<String>,
    self_name: Option<String>,
    own: String,
    changed: bool,
    helpers: &'a mut Vec<String>,
    log: &'a mut Log,
    n: usize,
    stack: Vec<String>,
}

struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
struct Mentions<'a>(&'a str, bool);
impl<'a, 'ast> Visit<'ast> for Mentions<'a> {
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        if i == self.0 {
            self.1 = true;
        }
    }
}

fn has_return_block(b: &syn::Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}
fn has_return_expr(b: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(b);
    h.0
}

/// Rewrites a block so that every `return` in a tail/if/match position becomes a value; None if impossible.
fn elim_returns(b: &syn::Block) -> Option<syn::Block> {
    if !has_return_block(b) {
        return Some(b.clone());
    }
    let mut stmts: Vec<Stmt> = b.stmts.clone();
    // find first stmt with a return
    for k in 0..stmts.len() {
        let hr = {
            let mut h = HasReturn(false);
            h.visit_stmt(&stmts[k]);
            h.0
        };
        if !hr {
            continue;
        }
        let rest: Vec<Stmt> = stmts.split_off(k + 1);
        let st = stmts.pop().unwrap();
        let e = match st {
            Stmt::Expr(e, _) => e,
            _ => return None,
        };
        let restb = syn::Block { brace_token: Default::default(), stmts: rest };
        let v = value_of(&e, &restb)?;
        stmts.push(Stmt::Expr(v, None));
        return Some(syn::Block { brace_token: Default::default(), stmts });
    }
    Some(b.clone())
}

fn cat(a: &syn::Block, rest: &syn::Block) -> syn::Block {
    let mut s = a.stmts.clone();
    if let Some(Stmt::Expr(_, semi @ None)) = s.last_mut() {
        if !rest.stmts.is_empty() {
            *semi = Some(Default::default());
        }
    }
    s.extend(rest.stmts.iter().cloned());
    syn::Block { brace_token: Default::default(), stmts: s }
}

fn value_of(e: &Expr, rest: &syn::Block) -> Option<Expr> {
    match e {
        Expr::Return(r) => Some(match &r.expr {
            Some(x) => (**x).clone(),
            None => syn::parse_quote!(()),
        }),
        Expr::If(i) => {
            if has_return_expr(&i.cond) {
                return None;
            }
            let mut i2 = i.clone();
            i2.then_branch = elim_returns(&cat(&i.then_branch, rest))?;
            let el: syn::Block = match &i.else_branch {
                None => elim_returns(rest)?,
                Some((_, e)) => match &**e {
                    Expr::Block(b) => elim_returns(&cat(&b.block, rest))?,
                    other => {
                        let v = value_of(other, rest)?;
                        syn::parse_quote!({ #v })
                    }
                },
            };
            i2.else_branch = Some((Default::default(), Box::new(syn::parse_quote!(#el))));
            Some(Expr::If(i2))
        }
        Expr::Match(m) => {
            if has_return_expr(&m.expr) {
                return None;
            }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                let blk: syn::Block = match &*a.body {
                    Expr::Block(b) => b.block.clone(),
                    Expr::Return(_) => {
                        let e = &a.body;
                        syn::parse_quote!({ #e })
                    }
                    e => {
                        let e = e.clone();
                        if rest.stmts.is_empty() {
                            syn::parse_quote!({ #e })
                        } else {
                            syn::parse_quote!({ #e; })
                        }
                    }
                };
                let ends = matches!(blk.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                let nb = if ends { elim_returns(&blk)? } else { elim_returns(&cat(&blk, rest))? };
                a.body = Box::new(syn::parse_quote!(#nb));
            }
            Some(Expr::Match(m2))
        }
        Expr::Block(b) => {
            let nb = elim_returns(&cat(&b.block, rest))?;
            Some(syn::parse_quote!(#nb))
        }
        _ => None,
    }
}

impl<'a> Inliner<'a> {
    fn try_inline(&mut self, path: &str, args: Vec<Expr>, recv_self: bool) -> Option<Expr> {
        if self.known.contains(path) || path == self.own {
            return None;
        }
        let f = find_fn(self.file, path)?;
        // recursive helper: keep as a function without contract
        let short = path.rsplit("::").next().unwrap();
        let mut m = Mentions(short, false);
        m.visit_block(&f.block);
        let simple_gen = f.sig.generics.params.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_)));
        let nb = if m.1 || !simple_gen { None } else { elim_returns(&f.block) };
        let nb = match nb {
            Some(b) => b,
            None => {
                if !self.helpers.contains(&path.to_string()) {
                    self.helpers.push(path.to_string());
                }
                return None;
            }
        };
        let mut params: Vec<(Pat, syn::Type)> = vec![];
        let mut has_self = false;
        for i in &f.sig.inputs {
            match i {
                syn::FnArg::Receiver(_) => has_self = true,
                syn::FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
            }
        }
        if has_self && !recv_self {
            return None;
        }
        if params.len() != args.len() {
            return None;
        }
        self.changed = true;
        self.log.inlined.push(path.to_string());
        self.n += 1;
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        for (k, ((p, t), a)) in params.into_iter().zip(args).enumerate() {
            let tmp = format_ident!("__h{}_{}", self.n, k);
            let t2 = strip_lt(&t);
            let has_impl = t2.to_token_stream().to_string().contains("impl ");
            if has_impl {
                pre.push(syn::parse_quote!(let #tmp = #a;));
            } else {
                pre.push(syn::parse_quote!(let #tmp: #t2 = #a;));
            }
            post.push(syn::parse_quote!(let #p = #tmp;));
        }
        let stmts = &nb.stmts;
        Some(match &f.sig.output {
            syn::ReturnType::Default => syn::parse_quote!({ #(#pre)* #(#post)* #(#stmts)* }),
            syn::ReturnType::Type(_, _) => syn::parse_quote!({ #(#pre)* #(#post)* #(#stmts)* }),
        })
    }
}

fn strip_lt(t: &syn::Type) -> syn::Type {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    S.visit_type_mut(&mut t);
    t
}

impl<'a> VisitMut for Inliner<'a> {
    /// helpers called among the arguments of a macro (format!, write!, matches!, vec!)
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        if let Ok(mut args) = syn::parse::Parser::parse2(p, m.tokens.clone()) {
            let before = self.changed;
            self.changed = false;
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            if self.changed {
                m.tokens = quote!(#args);
            }
            self.changed |= before;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = match segs.len() {
                        1 => Some(segs[0].clone()),
                        2 if segs[0] == "Self" => self.self_name.as_ref().map(|s| format!("{}::{}", s, segs[1])),
                        2 if Some(&segs[0]) == self.self_name.as_ref() => Some(segs.join("::")),
                        _ => None,
                    };
                    key.and_then(|k| self.try_inline(&k, c.args.iter().cloned().collect(), false))
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                if is_self && self.self_name.is_some() {
                    let k = format!("{}::{}", self.self_name.as_ref().unwrap(), m.method);
                    self.try_inline(&k, m.args.iter().cloned().collect(), true)
                } else {
                    None
                }
            }
            _ => None,
        };
        let _ = &self.stack;
        if let Some(n) = new {
            *e = n;
        }
    }
}

// ------------------------------------------------------------------ desugaring

struct X<'a> {
    spec: &'a FnSpec,
    ord: usize,
    err: Option<String>,
    log: &'a mut Log,
    consts: HashMap<String, (syn::Type, Expr)>,
    exit: Option<TokenStream>,
    in_closure: usize,
    loops: Vec<(usize, String, bool)>,
    conts: Vec<TokenStream>,
    tmp: usize,
}

struct Chain {
    base: Expr,
    src: String,
    adaptors: Vec<(String, Vec<Expr>)>,
}

const SOURCES: &[&str] = &["iter", "into_iter", "chars", "keys", "values", "lines", "bytes", "split_whitespace", "drain"];
const ADAPT: &[&str] = &[
    "map", "filter", "enumerate", "cloned", "copied", "filter_map", "rev", "skip", "zip", "flat_map", "take_while",
];
const TERM: &[&str] = &[
    "collect", "any", "all", "find", "position", "sum", "count", "for_each", "find_map", "max", "min", "fold",
    "rposition",
];

fn unwind(e: &Expr) -> (Expr, Vec<(String, Vec<Expr>, Option<syn::AngleBracketedGenericArguments>)>) {
    let mut ms = vec![];
    let mut cur = e.clone();
    loop {
        match cur {
            Expr::MethodCall(m) => {
                ms.push((m.method.to_string(), m.args.iter().cloned().collect(), m.turbofish.clone()));
                cur = *m.receiver;
            }
            Expr::Paren(p) if matches!(*p.expr, Expr::MethodCall(_)) => cur = *p.expr,
            other => {
                ms.reverse();
                return (other, ms);
            }
        }
    }
}

fn rebuild(base: Expr, ms: &[(String, Vec<Expr>, Option<syn::AngleBracketedGenericArguments>)]) -> Expr {
    let mut e = base;
    for (n, a, t) in ms {
        let id = format_ident!("{}", n);
        e = match t {
            Some(t) => syn::parse_quote!(#e.#id #t (#(#a),*)),
            None => syn::parse_quote!(#e.#id(#(#a),*)),
        };
    }
    e
}

impl<'a> X<'a> {
    fn fail(&mut self, m: &str) {
        if self.err.is_none() {
            self.err = Some(format!("unsupported construct: {}", m));
        }
    }

    fn next_ord(&mut self) -> usize {
        let o = self.ord;
        self.ord += 1;
        o
    }

    fn sect(&mut self, which: usize, ord: usize, kind: &str) -> TokenStream {
        let v = match which {
            0 => &self.spec.loops,
            1 => &self.spec.loop_entry,
            2 => &self.spec.loop_end,
            4 => &self.spec.loop_pre,
            _ => &self.spec.loop_exit,
        };
        let s = pick(v, ord, kind);
        if which == 0 {
            self.loops.push((ord, kind.to_string(), s.trim().is_empty()));
        }
        let s = s
            .replace("$i", &format!("__i{}", ord))
            .replace("$src", &format!("__src{}", ord))
            .replace("$out", &format!("__out{}", ord))
            .replace("$e", &format!("__e{}", ord))
            .replace("$found", &format!("__found{}", ord));
        match toks(&s) {
            Ok(t) => t,
            Err(e) => {
                self.err = Some(e);
                quote!()
            }
        }
    }

    /// (iterable) chain of a source expression; None if it is not a recognised iterator chain
    fn chain(&mut self, base: Expr, ms: &[(String, Vec<Expr>, Option<syn::AngleBracketedGenericArguments>)]) -> Option<Chain> {
        let k = ms.iter().position(|m| SOURCES.contains(&m.0.as_str()))?;
        if (ms[k].0 == "keys" || ms[k].0 == "values") && !ms[k].1.is_empty() {
            return None;
        }
        for m in &ms[k + 1..] {
            if !ADAPT.contains(&m.0.as_str()) {
                return None;
            }
        }
        let b = rebuild(base, &ms[..k]);
        Some(Chain {
            base: b,
            src: ms[k].0.clone(),
            adaptors: ms[k + 1..].iter().map(|m| (m.0.clone(), m.1.clone())).collect(),
        })
    }

    fn apply(&mut self, f: &Expr, arg: TokenStream) -> TokenStream {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    self.fail("closure arity");
                    return quote!();
                }
                let mut body = (*c.body).clone();
                if has_return_expr(&body) {
                    let block = match &body {
                        Expr::Block(b) => elim_returns(&b.block),
                        e => elim_returns(&syn::parse_quote!({ #e })),
                    };
                    match block {
                        Some(b) if !has_return_block(&b) => body = syn::parse_quote!(#b),
                        _ => {
                            self.fail("return inside an inlined closure");
                            return quote!();
                        }
                    }
                }
                let mut p = c.inputs[0].clone();
                if let Pat::Type(t) = &p {
                    p = (*t.pat).clone();
                }
                let mut arg = arg;
                while let Pat::Reference(r) = &p {
                    p = (*r.pat).clone();
                    arg = quote!(*#arg);
                }
                self.in_closure += 1;
                self.visit_expr_mut(&mut body);
                self.in_closure -= 1;
                self.visit_pat_mut(&mut p);
                quote!({ let #p = #arg; #body })
            }
            other => {
                let mut o = other.clone();
                self.visit_expr_mut(&mut o);
                let s = o.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "String::as_str" | "Box::new" | "Some" => {}
                    "str::to_string" | "ToString::to_string" | "String::from" | "str::to_owned" => return quote!(#arg.to_string()),
                    "str::trim" => return quote!(#arg.trim()),
                    _ => {}
                }
                quote!(#o(#arg))
            }
        }
    }

    /// statements that build the loop; `inner` gets the element identifier
    fn gen_loop(
        &mut self,
        ch: Chain,
        kind: &str,
        extra_cond: TokenStream,
        pre: TokenStream,
        post: TokenStream,
        inner: &mut dyn FnMut(&mut Self, TokenStream, usize) -> TokenStream,
    ) -> TokenStream {
        let n = self.next_ord();
        self.log.d(&format!("iterator/{}", kind));
        let i = format_ident!("__i{}", n);
        let src = format_ident!("__src{}", n);
        let e = format_ident!("__e{}", n);
        let kx = format_ident!("__k{}", n);
        let mut base = ch.base.clone();
        self.visit_expr_mut(&mut base);
        // a temporary the iterator borrows from has to outlive the loop
        let tmpb = format_ident!("__base{}", n);
        let mut hold = quote!();
        if ["iter", "chars", "lines", "keys", "values"].contains(&ch.src.as_str()) && matches!(base, Expr::Call(_) | Expr::MethodCall(_)) {
            hold = quote!(let #tmpb = #base;);
            base = syn::parse_quote!(#tmpb);
        }
        let srcx = match ch.src.as_str() {
            "iter" => quote!(#base.v_iter()),
            "into_iter" | "plain" => quote!((#base).v_into()),
            "chars" => quote!(v_chars(#base.v_str())),
            "lines" => quote!(v_lines(#base.v_str())),
            "keys" => quote!(#base.v_keys()),
            "values" => quote!(#base.v_values()),
            other => {
                self.fail(&format!("iterator source .{}()", other));
                quote!()
            }
        };
        // adaptors
        let mut start = quote!(0);
        let mut get = quote!(#src.v_at(#i));
        let mut wraps: Vec<(TokenStream, TokenStream)> = vec![];
        let mut filtered = false;
        let (mut skipped, mut enumerated) = (false, 0usize);
        let mut extra_cond = extra_cond;
        let mut zip_inv = quote!();
        let mut flat_end: Vec<(usize, TokenStream)> = vec![];
        for (a, args) in &ch.adaptors {
            match a.as_str() {
                "map" => {
                    let t = self.apply(&args[0], quote!(#e));
                    wraps.push((quote!(let #e = #t;), quote!()));
                }
                "filter" => {
                    filtered = true;
                    let t = self.apply(&args[0], quote!((&#e)));
                    wraps.push((quote!(if #t), quote!(brace)));
                }
                "filter_map" => {
                    filtered = true;
                    let t = self.apply(&args[0], quote!(#e));
                    wraps.push((quote!(if let Some(#e) = #t), quote!(brace)));
                }
                "enumerate" => {
                    if filtered || skipped {
                        self.fail("enumerate after filter or skip");
                    }
                    enumerated += 1;
                    wraps.push((quote!(let #e = (#kx, #e);), quote!()));
                }
                "flat_map" => {
                    filtered = true;
                    let t = self.apply(&args[0], quote!(#e));
                    let m = self.next_ord();
                    let i2 = format_ident!("__i{}", m);
                    let src2 = format_ident!("__src{}", m);
                    let inv = self.sect(0, m, "flat");
                    let lp = self.sect(4, m, "flat");
                    wraps.push((
                        quote!(let #src2 = (#t).v_into(); let mut #i2: usize = 0; #lp while #i2 < #src2.len() invariant #i2 <= #src2@.len(), #inv decreases #src2@.len() - #i2),
                        quote!(brace),
                    ));
                    let ld = self.sect(2, m, "flat");
                    let le = self.sect(1, m, "flat");
                    wraps.push((quote!(let #e = #src2.v_at(#i2); #i2 = #i2 + 1; #le), quote!()));
                    flat_end.push((wraps.len() - 1, ld));
                }
                "cloned" => wraps.push((quote!(let #e = #e.clone();), quote!())),
                "copied" => wraps.push((quote!(let #e = *#e;), quote!())),
                "rev" => {
                    if !wraps.is_empty() {
                        self.fail("rev after other adaptors");
                    }
                    get = quote!(#src.v_at(#src.len() - 1 - #i));
                }
                "skip" => {
                    if wraps.len() != enumerated {
                        self.fail("skip after other adaptors");
                    }
                    skipped = true;
                    let mut a0 = args[0].clone();
                    self.visit_expr_mut(&mut a0);
                    start = quote!(v_min(#a0, #src.len()));
                }
                "zip" => {
                    if !wraps.is_empty() || skipped {
                        self.fail("zip after other adaptors");
                    }
                    let z = format_ident!("__zip{}", n);
                    let mut a0 = args[0].clone();
                    let zx = match &mut a0 {
                        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                            self.visit_expr_mut(&mut m.receiver);
                            let r = &m.receiver;
                            quote!(#r.v_iter())
                        }
                        a0 => {
                            self.visit_expr_mut(a0);
                            quote!((#a0).v_into())
                        }
                    };
                    hold = quote!(#hold let #z = #zx;);
                    extra_cond = quote!(&& #i < #z.len() #extra_cond);
                    zip_inv = quote!(#i <= #z@.len(),);
                    wraps.push((quote!(let #e = (#e, #z.v_at(#kx));), quote!()));
                    filtered = true;
                }
                other => self.fail(&format!("iterator adaptor .{}()", other)),
            }
        }
        let mut code = inner(self, quote!(#e), n);
        for (k, (w, b)) in wraps.into_iter().enumerate().rev() {
            if let Some((_, ld)) = flat_end.iter().find(|f| f.0 == k) {
                code = quote!(#code #ld);
            }
            code = if b.is_empty() { quote!(#w #code) } else { quote!(#w { #code }) };
        }
        let inv = self.sect(0, n, kind);
        let le = self.sect(1, n, kind);
        let ld = self.sect(2, n, kind);
        let lx = self.sect(3, n, kind);
        let lp = self.sect(4, n, kind);
        quote! {
            #hold
            let #src = #srcx;
            let mut #i: usize = #start;
            #pre
            #lp
            while #i < #src.len() #extra_cond
                invariant #i <= #src@.len(), #zip_inv #inv
                decreases #src@.len() - #i
            {
                let #e = #get;
                let #kx = #i;
                #i = #i + 1;
                #le
                #code
                #ld
            }
            #lx
            #post
        }
    }

    fn range_loop(&mut self, pat: &Pat, r: &syn::ExprRange, body: &syn::Block) -> Option<TokenStream> {
        let mut a = r.start.clone()?;
        let mut b = r.end.clone()?;
        let n = self.next_ord();
        self.log.d("for-range");
        self.visit_expr_mut(&mut a);
        self.visit_expr_mut(&mut b);
        let i = format_ident!("__i{}", n);
        let end = format_ident!("__end{}", n);
        let stmts = &body.stmts;
        let inv = self.sect(0, n, "range");
        let le = self.sect(1, n, "range");
        let ld = self.sect(2, n, "range");
        let lx = self.sect(3, n, "range");
        let lp = self.sect(4, n, "range");
        let lim = if matches!(r.limits, syn::RangeLimits::Closed(_)) { quote!(#b + 1) } else { quote!(#b) };
        Some(quote!({
            let #end = #lim;
            let mut #i = #a;
            #lp
            while #i < #end
                invariant #inv
                decreases #end - #i
            {
                let #pat = #i;
                #i = #i + 1;
                #le
                #(#stmts)*
                #ld
            }
            #lx
        }))
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Option<TokenStream> {
        if f.label.is_some() {
            self.fail("labelled for loop");
            return None;
        }
        let mut it = (*f.expr).clone();
        while let Expr::Paren(p) = it {
            it = *p.expr;
        }
        if let Expr::Range(r) = &it {
            let r = r.clone();
            let mut body = f.body.clone();
            // ordinal order: loop header first
            let save = self.ord;
            self.ord = save + 1;
            let ld = self.sect(2, save, "range");
            self.conts.push(ld);
            self.visit_block_mut(&mut body);
            self.conts.pop();
            let after = self.ord;
            self.ord = save;
            let t = self.range_loop(&f.pat, &r, &body);
            self.ord = after;
            return t;
        }
        let (base, ms) = unwind(&it);
        let ch = match self.chain(base.clone(), &ms) {
            Some(c) => c,
            None => {
                if ms.iter().any(|m| SOURCES.contains(&m.0.as_str())) {
                    self.fail("iterator chain in for");
                    return None;
                }
                Chain { base: it.clone(), src: "plain".into(), adaptors: vec![] }
            }
        };
        let pat = (*f.pat).clone();
        let body = f.body.clone();
        let t = self.gen_loop(ch, "for", quote!(), quote!(), quote!(), &mut |s, e, n| {
            let mut p = pat.clone();
            let mut e = e;
            while let Pat::Reference(r) = &p {
                p = (*r.pat).clone();
                e = quote!(*#e);
            }
            let mut b = body.clone();
            let ld = s.sect(2, n, "for");
            s.conts.push(ld);
            s.visit_block_mut(&mut b);
            s.conts.pop();
            let stmts = &b.stmts;
            quote!(let #p = #e; #(#stmts)*)
        });
        Some(quote!({ #t }))
    }

    fn terminal(&mut self, e: &Expr) -> Option<TokenStream> {
        let (base, ms) = unwind(e);
        let last = ms.last()?.clone();
        if !TERM.contains(&last.0.as_str()) || ms.len() < 2 {
            return None;
        }
        let ch = self.chain(base, &ms[..ms.len() - 1])?;
        let term = last.0.as_str();
        Some(match term {
            "collect" => {
                let tf = last.2.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                let (init, add) = if tf.contains("String") && !tf.contains("Vec") && !tf.contains("HashSet") {
                    (quote!(String::new()), 1)
                } else if tf.contains("HashSet") {
                    (quote!(HashSet::new()), 2)
                } else if tf.contains("HashMap") || tf.contains("BTree") {
                    self.fail("collect into a map");
                    return None;
                } else {
                    (quote!(Vec::new()), 0)
                };
                let ord = self.ord;
                let out = format_ident!("__out{}", ord);
                let t = self.gen_loop(ch, "collect", quote!(), quote!(let mut #out = #init;), quote!(#out), &mut |_, e, _| {
                    if add == 2 {
                        return quote!(#out.insert(#e););
                    }
                    if add == 1 {
                        return quote!((#e).v_disp(&mut #out););
                    }
                    quote!(#out.push(#e);)
                });
                quote!({ #t })
            }
            "any" | "all" => {
                let f = last.1[0].clone();
                let found = format_ident!("__found{}", self.ord);
                let neg = term == "all";
                let t = self.gen_loop(
                    ch,
                    term,
                    quote!(&& !#found),
                    quote!(let mut #found = false;),
                    if neg { quote!(!#found) } else { quote!(#found) },
                    &mut |s, e, _| {
                        let c = s.apply(&f, e);
                        if neg {
                            quote!(if !(#c) { #found = true; })
                        } else {
                            quote!(if #c { #found = true; })
                        }
                    },
                );
                quote!({ #t })
            }
            "find" | "position" | "find_map" | "rposition" => {
                let mut ch = ch;
                let pos = term == "position" || term == "rposition";
                if term == "rposition" {
                    if !ch.adaptors.is_empty() {
                        self.fail("rposition after adaptors");
                        return None;
                    }
                    ch.adaptors.push(("rev".into(), vec![]));
                }
                let srcn = format_ident!("__src{}", self.ord);
                let f = last.1[0].clone();
                let out = format_ident!("__out{}", self.ord);
                let init = if pos { quote!(let mut #out: Option<usize> = None;) } else { quote!(let mut #out = None;) };
                let t = self.gen_loop(
                    ch,
                    term,
                    quote!(&& #out.is_none()),
                    init,
                    quote!(#out),
                    &mut |s, e, n| {
                        let kx = format_ident!("__k{}", n);
                        match term {
                            "find" => {
                                let c = s.apply(&f, quote!((&#e)));
                                quote!(if #c { #out = Some(#e); })
                            }
                            "position" => {
                                let c = s.apply(&f, e);
                                quote!(if #c { #out = Some(#kx); })
                            }
                            "rposition" => {
                                let c = s.apply(&f, e);
                                quote!(if #c { #out = Some(#srcn.len() - 1 - #kx); })
                            }
                            _ => {
                                let c = s.apply(&f, e);
                                quote!(#out = #c;)
                            }
                        }
                    },
                );
                quote!({ #t })
            }
            "sum" | "count" => {
                let out = format_ident!("__out{}", self.ord);
                let cnt = term == "count";
                let t = self.gen_loop(ch, term, quote!(), quote!(let mut #out = 0;), quote!(#out), &mut |_, e, _| {
                    if cnt {
                        quote!(#out = #out + 1;)
                    } else {
                        quote!(#out = #out + #e;)
                    }
                });
                quote!({ #t })
            }
            "for_each" => {
                let f = last.1[0].clone();
                let t = self.gen_loop(ch, "for", quote!(), quote!(), quote!(), &mut |s, e, n| {
                    let c = s.apply(&f, e);
                    quote!(#c;)
                });
                quote!({ #t })
            }
            other => {
                self.fail(&format!("iterator terminal .{}()", other));
                return None;
            }
        })
    }

    fn option_method(&mut self, m: &syn::ExprMethodCall) -> Option<TokenStream> {
        let name = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        // m.entry(k).or_default().f(x): one step on the map
        if let Expr::MethodCall(d) = &*m.receiver {
            if d.method == "or_default" || d.method == "or_insert_with" {
                if let Expr::MethodCall(en) = &*d.receiver {
                    if en.method == "entry" && en.args.len() == 1 {
                        let mut mr = (*en.receiver).clone();
                        let mut k = en.args[0].clone();
                        self.visit_expr_mut(&mut mr);
                        self.visit_expr_mut(&mut k);
                        let mut xs = args.clone();
                        for x in xs.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        let id = format_ident!("v_entry_{}", name);
                        self.log.d("entry().or_default()");
                        return Some(quote!(#mr.#id(#k, #(#xs),*)));
                    }
                }
            }
        }
        let is_fn = |e: &Expr| matches!(e, Expr::Closure(_) | Expr::Path(_));
        let mut recv = (*m.receiver).clone();
        let v = {
            self.tmp += 1;
            format_ident!("__o{}", self.tmp)
        };
        let r = match (name.as_str(), args.len()) {
            ("map", 1) if is_fn(&args[0]) => {
                self.visit_expr_mut(&mut recv);
                let a = self.apply(&args[0], quote!(#v));
                quote!(match (#recv).v_opt() { Some(#v) => Some(#a), None => None })
            }
            ("and_then", 1) => {
                self.visit_expr_mut(&mut recv);
                let a = self.apply(&args[0], quote!(#v));
                quote!(match (#recv).v_opt() { Some(#v) => #a, None => None })
            }
            ("is_some_and", 1) => {
                self.visit_expr_mut(&mut recv);
                let a = self.apply(&args[0], quote!(#v));
                quote!(match (#recv).v_opt() { Some(#v) => #a, None => false })
            }
            ("map_or", 2) => {
                self.visit_expr_mut(&mut recv);
                let a = self.apply(&args[1], quote!(#v));
                let mut d = args[0].clone();
                self.visit_expr_mut(&mut d);
                quote!(match (#recv).v_opt() { Some(#v) => #a, None => #d })
            }
            ("unwrap_or_else", 1) => {
                self.visit_expr_mut(&mut recv);
                let d = match &args[0] {
                    Expr::Closure(c) if c.inputs.is_empty() => {
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        quote!(#b)
                    }
                    Expr::Path(p) => quote!(#p()),
                    _ => {
                        self.fail("unwrap_or_else closure");
                        return None;
                    }
                };
                quote!(match #recv { Some(#v) => #v, None => #d })
            }
            ("with_context", 1) | ("context", 1) => {
                self.visit_expr_mut(&mut recv);
                quote!((#recv).v_context())
            }
            ("sort_by", 1) | ("sort_by_key", 1) | ("sort_unstable_by", 1) => {
                self.visit_expr_mut(&mut recv);
                quote!(#recv.v_sort_perm())
            }
            ("ok_or_else", 1) => {
                self.visit_expr_mut(&mut recv);
                quote!((#recv).v_ok_or())
            }
            ("len", 0) if LEN_TRAITS.load(std::sync::atomic::Ordering::Relaxed) => {
                self.visit_expr_mut(&mut recv);
                quote!(#recv.v_len())
            }
            ("find", 1) if !matches!(&args[0], Expr::Closure(_)) => {
                self.visit_expr_mut(&mut recv);
                let mut x = args[0].clone();
                self.visit_expr_mut(&mut x);
                quote!(#recv.v_find(#x))
            }
            ("or_else", 1) => {
                self.visit_expr_mut(&mut recv);
                let mut d = match &args[0] {
                    Expr::Closure(c) if c.inputs.is_empty() => (*c.body).clone(),
                    _ => {
                        self.fail("or_else closure");
                        return None;
                    }
                };
                self.visit_expr_mut(&mut d);
                quote!(match #recv { Some(#v) => Some(#v), None => #d })
            }
            ("filter", 1) => {
                self.visit_expr_mut(&mut recv);
                let a = self.apply(&args[0], quote!((&#v)));
                quote!(match (#recv).v_opt() { Some(#v) => if #a { Some(#v) } else { None }, None => None })
            }
            ("expect", 1) => {
                self.visit_expr_mut(&mut recv);
                quote!((#recv).v_unwrap())
            }
            ("ok", 0) => {
                self.visit_expr_mut(&mut recv);
                quote!((#recv).v_ok())
            }
            ("as_deref", 0) => {
                self.visit_expr_mut(&mut recv);
                quote!(#recv.v_as_deref())
            }
            ("unwrap_or", 1) => {
                self.visit_expr_mut(&mut recv);
                let mut d = args[0].clone();
                self.visit_expr_mut(&mut d);
                quote!(match #recv { Some(#v) => #v, None => #d })
            }
            ("contains", 1) => {
                let mut rr = recv.clone();
                while let Expr::Paren(p) = rr {
                    rr = *p.expr;
                }
                if let Expr::Range(rg) = &rr {
                    let (mut a, mut b) = (rg.start.clone()?, rg.end.clone()?);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    let mut x = args[0].clone();
                    if let Expr::Reference(r) = x {
                        x = *r.expr;
                    }
                    self.visit_expr_mut(&mut x);
                    self.log.d("range.contains");
                    return Some(if matches!(rg.limits, syn::RangeLimits::Closed(_)) {
                        quote!((#a <= #x && #x <= #b))
                    } else {
                        quote!((#a <= #x && #x < #b))
                    });
                }
                if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &rr {
                    if !matches!(args[0], Expr::Lit(_) | Expr::Reference(_)) && !l.value().is_empty() {
                        let mut x = args[0].clone();
                        self.visit_expr_mut(&mut x);
                        self.log.d("contains(char) on a string literal");
                        let alts: Vec<TokenStream> = l.value().chars().map(|c| quote!(__x == #c)).collect();
                        return Some(quote!({ let __x = #x; #(#alts)||* }));
                    }
                }
                if let Some(els) = self.lit_array(&rr) {
                    let mut x = match args[0].clone() {
                        Expr::Reference(r) => *r.expr,
                        o => syn::parse_quote!(*#o),
                    };
                    self.visit_expr_mut(&mut x);
                    self.log.d("contains on an array of literals");
                    let alts: Vec<TokenStream> = els
                        .iter()
                        .map(|l| match l {
                            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }) => quote!(v_str_eq(__x, #l)),
                            _ => quote!(__x == #l),
                        })
                        .collect();
                    return Some(quote!({ let __x = #x; #(#alts)||* }));
                }
                self.visit_expr_mut(&mut recv);
                let mut x = args[0].clone();
                self.visit_expr_mut(&mut x);
                quote!(#recv.v_contains(#x))
            }
            ("extend", 1) => {
                self.visit_expr_mut(&mut recv);
                let mut x = args[0].clone();
                self.visit_expr_mut(&mut x);
                quote!(#recv.v_extend(#x))
            }
            ("to_vec", 0) => {
                self.visit_expr_mut(&mut recv);
                quote!(#recv.v_to_vec())
            }
            // an iterator kept in a variable (chains and loops over chars() are taken apart before)
            ("chars", 0) => {
                self.visit_expr_mut(&mut recv);
                quote!(#recv.v_chars_it())
            }
            ("first", 0) | ("last", 0) | ("as_ref", 0) | ("push_str", 1) | ("to_string", 0) | ("to_owned", 0) | ("is_empty", 0) | ("starts_with", 1)
            | ("ends_with", 1) | ("replace", 2) | ("join", 1) | ("trim", 0) | ("trim_end_matches", 1) | ("get", 1) | ("strip_prefix", 1) | ("strip_suffix", 1) | ("get_mut", 1)
            | ("contains_key", 1) | ("remove", 1) | ("insert", 2) | ("split", 1) | ("retain", 1) | ("entry", 1)
            | ("sort", 0) | ("reverse", 0) | ("dedup", 0) | ("unwrap_or_default", 0) => {
                self.visit_expr_mut(&mut recv);
                let mut xs = args.clone();
                for x in xs.iter_mut() {
                    self.visit_expr_mut(x);
                }
                let id = format_ident!("v_{}", name);
                quote!(#recv.#id(#(#xs),*))
            }
            _ => return None,
        };
        self.log.d(&format!("method .{}()", name));
        Some(r)
    }

    /// `[L, …]`, `&[L, …]` or the name of a constant defined so
    fn lit_array(&self, e: &Expr) -> Option<Vec<Expr>> {
        match e {
            Expr::Paren(p) => self.lit_array(&p.expr),
            Expr::Reference(r) => self.lit_array(&r.expr),
            Expr::Array(a) if a.elems.iter().all(|x| matches!(x, Expr::Lit(_))) && !a.elems.is_empty() => Some(a.elems.iter().cloned().collect()),
            Expr::Path(p) => self.lit_array(&self.consts.get(&p.path.get_ident()?.to_string())?.1.clone()),
            _ => None,
        }
    }

    fn fmt_macro(&mut self, tokens: TokenStream) -> Option<TokenStream> {
        let args: syn::punctuated::Punctuated<Expr, syn::Token![,]> = {
            let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
            syn::parse::Parser::parse2(p, tokens).ok()?
        };
        let mut it = args.into_iter();
        let lit = match it.next()? {
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut pos = vec![];
        let mut named = HashMap::new();
        for a in it {
            match a {
                Expr::Assign(x) => {
                    named.insert(x.left.to_token_stream().to_string(), *x.right);
                }
                o => pos.push(o),
            }
        }
        let mut out: Vec<FPiece> = vec![];
        let mut buf = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut k = 0;
        let mut nextpos = 0;
        while k < cs.len() {
            match cs[k] {
                '{' if k + 1 < cs.len() && cs[k + 1] == '{' => {
                    buf.push('{');
                    k += 2;
                }
                '}' if k + 1 < cs.len() && cs[k + 1] == '}' => {
                    buf.push('}');
                    k += 2;
                }
                '{' => {
                    let close = (k..cs.len()).find(|j| cs[*j] == '}')?;
                    let inner: String = cs[k + 1..close].iter().collect();
                    k = close + 1;
                    if !buf.is_empty() {
                        let b = std::mem::take(&mut buf);
                        out.push(FPiece::Lit(b));
                    }
                    let (nm, sp) = inner.split_once(':').unwrap_or((&inner, ""));
                    let mut e: Expr = if nm.is_empty() {
                        nextpos += 1;
                        pos.get(nextpos - 1)?.clone()
                    } else if let Ok(ix) = nm.parse::<usize>() {
                        pos.get(ix)?.clone()
                    } else if let Some(x) = named.get(nm) {
                        x.clone()
                    } else {
                        syn::parse_str(nm).ok()?
                    };
                    self.visit_expr_mut(&mut e);
                    if matches!(e, Expr::Cast(_) | Expr::Binary(_)) {
                        e = syn::parse_quote!((#e));
                    }
                    if sp.is_empty() {
                        out.push(FPiece::Ex(quote!((&#e).v_disp(&mut __f);)));
                    } else if sp == "x" {
                        out.push(FPiece::Ex(quote!((&#e).v_hex(&mut __f);)));
                    } else if sp == "02x" {
                        out.push(FPiece::Ex(quote!((&#e).v_hex2(&mut __f);)));
                    } else if sp == "?" {
                        out.push(FPiece::Ex(quote!((&#e).v_debug(&mut __f);)));
                    } else {
                        return None;
                    }
                }
                c => {
                    buf.push(c);
                    k += 1;
                }
            }
        }
        if !buf.is_empty() {
            out.push(FPiece::Lit(buf));
        }
        self.log.d("format!");
        let out = if GROUP_FORMAT.load(std::sync::atomic::Ordering::Relaxed) { group_pieces(out) } else { out };
        Some(emit_pieces(&out))
    }

    /// string literals inside patterns become guards
    fn strip_pat(&mut self, p: &mut Pat, guards: &mut Vec<TokenStream>, top: bool) {
        match p {
            Pat::Lit(l) => {
                if let syn::Lit::Str(s) = &l.lit {
                    self.tmp += 1;
                    let id = format_ident!("__s{}", self.tmp);
                    guards.push(quote!(v_str_eq(#id, #s)));
                    *p = syn::parse_quote!(#id);
                }
            }
            Pat::Or(o) => {
                let all_str = o.cases.iter().all(|c| matches!(c, Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_))));
                if all_str {
                    self.tmp += 1;
                    let id = format_ident!("__s{}", self.tmp);
                    let lits: Vec<_> = o.cases.iter().map(|c| c.to_token_stream()).collect();
                    guards.push(quote!((#(v_str_eq(#id, #lits))||*)));
                    *p = syn::parse_quote!(#id);
                } else {
                    for c in o.cases.iter_mut() {
                        let mut g = vec![];
                        self.strip_pat(c, &mut g, top);
                        if !g.is_empty() {
                            self.fail("string literal nested in an or-pattern");
                        }
                    }
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|c| self.strip_pat(c, guards, false)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|c| self.strip_pat(c, guards, false)),
            Pat::Struct(t) => t.fields.iter_mut().for_each(|c| self.strip_pat(&mut c.pat, guards, false)),
            Pat::Paren(t) => self.strip_pat(&mut t.pat, guards, top),
            Pat::Reference(t) => self.strip_pat(&mut t.pat, guards, top),
            Pat::Ident(i) => {
                if let Some((_, s)) = i.subpat.as_mut() {
                    self.strip_pat(s, guards, false)
                }
            }
            _ => {}
        }
    }
}

/// set by `//@format grouped`: literal text of format! is pushed token by token, and the pieces
/// between matching brackets are built as one string first (concatenation is associative)
pub static GROUP_FORMAT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// set by `//@vec calls`: vec![a, b] is a call v_vec2(a, b), so that the elements are coerced to the
/// element type that the context expects
pub static VEC_CALLS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// set by `//@len traits`: x.len() is x.v_len(), which has a contract for strings too
pub static LEN_TRAITS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub enum FPiece {
    Lit(String),
    Ex(TokenStream),
    Group(Vec<FPiece>),
}

fn emit_pieces(v: &[FPiece]) -> TokenStream {
    if let [FPiece::Group(g)] = v {
        return emit_pieces(g);
    }
    let parts: Vec<TokenStream> = v
        .iter()
        .map(|p| match p {
            FPiece::Lit(b) => quote!(__f.v_push_str(#b);),
            FPiece::Ex(t) => t.clone(),
            FPiece::Group(g) => {
                let t = emit_pieces(g);
                quote!((&#t).v_disp(&mut __f);)
            }
        })
        .collect();
    quote!({ let mut __f = String::new(); #(#parts)* __f })
}

fn group_pieces(v: Vec<FPiece>) -> Vec<FPiece> {
    // tokens
    let mut flat = vec![];
    for p in v {
        match p {
            FPiece::Lit(s) => {
                let mut cur = String::new();
                for c in s.chars() {
                    if "(){}[] \n;,".contains(c) {
                        if !cur.is_empty() {
                            flat.push(FPiece::Lit(std::mem::take(&mut cur)));
                        }
                        flat.push(FPiece::Lit(c.to_string()));
                    } else {
                        cur.push(c);
                    }
                }
                if !cur.is_empty() {
                    flat.push(FPiece::Lit(cur));
                }
            }
            p => flat.push(p),
        }
    }
    // brackets
    let mut stack: Vec<Vec<FPiece>> = vec![vec![]];
    let mut open: Vec<char> = vec![];
    for p in flat {
        if let FPiece::Lit(s) = &p {
            if s.len() == 1 && "({[".contains(s.as_str()) {
                open.push(s.chars().next().unwrap());
                stack.push(vec![p]);
                continue;
            }
            if s.len() == 1 && ")}]".contains(s.as_str()) {
                let want = match s.as_str() {
                    ")" => '(',
                    "}" => '{',
                    _ => '[',
                };
                if open.last() == Some(&want) {
                    open.pop();
                    let mut inner = stack.pop().unwrap();
                    let o = inner.remove(0);
                    let mut g = vec![o];
                    if inner.len() == 1 {
                        g.extend(inner);
                    } else if !inner.is_empty() {
                        g.push(FPiece::Group(inner));
                    }
                    g.push(p);
                    stack.last_mut().unwrap().push(FPiece::Group(g));
                    continue;
                }
            }
        }
        stack.last_mut().unwrap().push(p);
    }
    // unmatched opening brackets: their pieces stay flat
    let mut out = vec![];
    for s in stack {
        out.extend(s);
    }
    out
}

/// `&x` inside a pattern becomes a fresh binding; the returned statements dereference it
fn deref_pats(p: &mut Pat, tmp: &mut usize, out: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) => {
            if let Pat::Ident(i) = &*r.pat {
                if i.by_ref.is_none() && i.subpat.is_none() {
                    *tmp += 1;
                    let f = format_ident!("__d{}", tmp);
                    out.push(syn::parse_quote!(let #i = *#f;));
                    *p = syn::parse_quote!(#f);
                }
            } else if let Pat::Wild(_) = &*r.pat {
                *p = syn::parse_quote!(_);
            }
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|c| deref_pats(c, tmp, out)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|c| deref_pats(c, tmp, out)),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|c| deref_pats(&mut c.pat, tmp, out)),
        Pat::Paren(t) => deref_pats(&mut t.pat, tmp, out),
        _ => {}
    }
}

impl<'a> VisitMut for X<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| {
            if let Stmt::Item(syn::Item::Const(c)) = s {
                let k = c.ident.to_string();
                self.consts.insert(k, ((*c.ty).clone(), (*c.expr).clone()));
                let p: Expr = { let i = &c.ident; syn::parse_quote!(#i) };
                return self.lit_array(&p).is_none();
            }
            let m = match s {
                Stmt::Macro(m) => Some(&m.mac),
                Stmt::Expr(Expr::Macro(m), _) => Some(&m.mac),
                _ => None,
            };
            if let Some(m) = m {
                let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if n.starts_with("contract_") || ["println", "eprintln", "debug", "info", "warn", "trace", "debug_assert"].contains(&n.as_str()) {
                    self.log.drop(&format!("{}!", if n.starts_with("contract_") { "contract_*" } else { &n }));
                    return false;
                }
            }
            true
        });
        // a function inside a function: nothing is known of what it returns
        for s in b.stmts.iter_mut() {
            if let Stmt::Item(syn::Item::Fn(f)) = s {
                self.log.drop("body of a nested fn");
                f.attrs = vec![syn::parse_quote!(#[verifier::external_body])];
                f.block = Box::new(syn::parse_quote!({ v_any() }));
            }
        }
        visit_mut::visit_block_mut(self, b);
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let mac = m.mac.clone();
                let semi = m.semi_token;
                let mut e: Expr = Expr::Macro(syn::ExprMacro { attrs: vec![], mac });
                self.visit_expr_mut(&mut e);
                *s = Stmt::Expr(e, semi);
            }
        }
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        l.attrs.clear();
        // `let x: HashSet<_> = ….collect()` says where to collect to
        if let Pat::Type(t) = &l.pat {
            let ts = t.ty.to_token_stream().to_string();
            if ts.contains("HashSet") || ts == "String" {
                let to: syn::Type = (*t.ty).clone();
                if let Some(init) = l.init.as_mut() {
                    if let Expr::MethodCall(m) = &mut *init.expr {
                        if m.method == "collect" && m.turbofish.is_none() {
                            m.turbofish = Some(syn::parse_quote!(::<#to>));
                        }
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        std_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let mut g = vec![];
        let mut ds = vec![];
        deref_pats(&mut a.pat, &mut self.tmp, &mut ds);
        if !ds.is_empty() {
            self.log.d("reference pattern");
            let b = &a.body;
            a.body = syn::parse_quote!({ #(#ds)* #b });
            if let Some((_, x)) = a.guard.as_mut() {
                *x = syn::parse_quote!({ #(#ds)* #x });
            }
        }
        self.strip_pat(&mut a.pat, &mut g, true);
        if !g.is_empty() {
            self.log.d("string-literal pattern -> guard");
            let old = a.guard.take().map(|(_, e)| e);
            let ng: Expr = match old {
                Some(o) => syn::parse_quote!(#(#g)&&* && #o),
                None => syn::parse_quote!(#(#g)&&*),
            };
            a.guard = Some((Default::default(), Box::new(ng)));
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() {
            return;
        }
        // 1. iterator terminals
        if let Expr::MethodCall(_) = e {
            if let Some(t) = self.terminal(e) {
                *e = Expr::Verbatim(t);
                return;
            }
            if self.err.is_some() {
                return;
            }
            if let Expr::MethodCall(m) = e {
                let m = m.clone();
                if let Some(t) = self.option_method(&m) {
                    *e = Expr::Verbatim(t);
                    return;
                }
            }
        }
        if let Expr::Call(c) = e {
            // i8::from_str_radix: Result becomes Option (any other use of the error is a type error)
            if let Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && segs[1] == "from_str_radix" {
                    let id = format_ident!("v_{}_radix", segs[0]);
                    c.func = Box::new(syn::parse_quote!(#id));
                    self.log.d("from_str_radix as Option");
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                if let Some(t) = self.for_loop(&f) {
                    *e = Expr::Verbatim(t);
                }
            }
            Expr::While(w) => {
                let n = self.next_ord();
                let mut w = w.clone();
                if let Expr::Let(l) = &*w.cond {
                    let mut x = (*l.expr).clone();
                    let p = l.pat.clone();
                    self.visit_expr_mut(&mut x);
                    let ld = self.sect(2, n, "while");
                    self.conts.push(ld);
                    self.visit_block_mut(&mut w.body);
                    self.conts.pop();
                    let inv = self.sect(0, n, "while");
                    let le = self.sect(1, n, "while");
                    let ld = self.sect(2, n, "while");
                    let lx = self.sect(3, n, "while");
                    let lp = self.sect(4, n, "while");
                    let st = &w.body.stmts;
                    self.log.d("while-let");
                    *e = Expr::Verbatim(quote!({ #lp loop #inv { match #x { #p => { #le #(#st)* #ld } _ => { break; } } } #lx }));
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                let ld = self.sect(2, n, "while");
                self.conts.push(ld);
                self.visit_block_mut(&mut w.body);
                self.conts.pop();
                let inv = self.sect(0, n, "while");
                let le = self.sect(1, n, "while");
                let ld = self.sect(2, n, "while");
                let lx = self.sect(3, n, "while");
                let lp = self.sect(4, n, "while");
                let c = &w.cond;
                let st = &w.body.stmts;
                let lab = &w.label;
                *e = Expr::Verbatim(quote!({ #lp #lab while #c #inv { #le #(#st)* #ld } #lx }));
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                match n.as_str() {
                    "matches" => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let e = i.parse()?;
                                i.parse::<syn::Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(syn::Token![if]) {
                                    i.parse::<syn::Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _ = i.parse::<Option<syn::Token![,]>>()?;
                                Ok(M(e, p, g))
                            }
                        }
                        match syn::parse2::<M>(m.mac.tokens.clone()) {
                            Ok(M(x, p, g)) => {
                                let gd = g.map(|g| quote!(if #g));
                                let mut ne: Expr = syn::parse_quote!(match #x { #p #gd => true, _ => false });
                                self.log.d("matches!");
                                self.visit_expr_mut(&mut ne);
                                *e = ne;
                            }
                            Err(_) => self.fail("matches!"),
                        }
                    }
                    "format" => match self.fmt_macro(m.mac.tokens.clone()) {
                        Some(t) => *e = Expr::Verbatim(t),
                        None => self.fail("format! with an unsupported specification"),
                    },
                    "vec" => {
                        let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                        match syn::parse::Parser::parse2(p, m.mac.tokens.clone()) {
                            Ok(v) => {
                                let mut v: Vec<Expr> = v.into_iter().collect();
                                for x in v.iter_mut() {
                                    self.visit_expr_mut(x);
                                }
                                self.log.d("vec!");
                                *e = if VEC_CALLS.load(std::sync::atomic::Ordering::Relaxed) && (1..=4).contains(&v.len()) {
                                    let f = quote::format_ident!("v_vec{}", v.len());
                                    Expr::Verbatim(quote!(#f(#(#v),*)))
                                } else {
                                    Expr::Verbatim(quote!({ let mut __v = Vec::new(); #(__v.push(#v);)* __v }))
                                };
                            }
                            Err(_) => self.fail("vec![x; n]"),
                        }
                    }
                    "unreachable" | "panic" | "unimplemented" | "todo" => {
                        // a template may accept that the function panics (partial correctness)
                        let alt = self.spec.subst.iter().any(|(a, b)| a == "panic!" && b == "v_any()");
                        *e = Expr::Verbatim(if alt { quote!(v_any()) } else { quote!(v_panic()) });
                    }
                    "anyhow" => *e = Expr::Verbatim(quote!(v_err())),
                    "bail" => *e = Expr::Verbatim(quote!(return Err(v_err()))),
                    "assert" | "assert_eq" | "debug_assert" => self.fail("assert! in executable code"),
                    other => self.fail(&format!("macro {}!", other)),
                }
            }
            Expr::Continue(c) if c.label.is_none() => {
                if let Some(ld) = self.conts.last() {
                    if !ld.is_empty() {
                        *e = Expr::Verbatim(quote!({ #ld continue; }));
                    }
                }
            }
            Expr::Return(r) => {
                if let Some(x) = r.expr.as_mut() {
                    self.visit_expr_mut(x);
                }
                if self.in_closure == 0 {
                    if let Some(ex) = &self.exit {
                        let v = match &r.expr {
                            Some(x) => quote!(#x),
                            None => quote!(()),
                        };
                        *e = Expr::Verbatim(quote!({ let __r = #v; #ex return __r; }));
                    }
                }
            }
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => {
                let (mut b, r) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut b);
                if let Expr::Range(r) = r {
                    if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                        self.fail("closed range index");
                        return;
                    }
                    let (mut lo, mut hi) = (r.start.clone(), r.end.clone());
                    if let Some(x) = lo.as_mut() {
                        self.visit_expr_mut(x);
                    }
                    if let Some(x) = hi.as_mut() {
                        self.visit_expr_mut(x);
                    }
                    self.log.d("range index");
                    *e = Expr::Verbatim(match (lo, hi) {
                        (Some(a), Some(c)) => quote!((*#b.v_slice(#a, #c))),
                        (Some(a), None) => quote!((*#b.v_slice_from(#a))),
                        (None, Some(c)) => quote!((*#b.v_slice(0, #c))),
                        (None, None) => quote!((*#b.v_slice_from(0))),
                    });
                }
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some((t, x)) = self.consts.get(&i.to_string()) {
                        if matches!(x, Expr::Lit(_) | Expr::Unary(_)) && t.to_token_stream().to_string() != "& str" {
                            self.log.d("const inlined");
                            let x = x.clone();
                            *e = x;
                        }
                    }
                }
            }
            Expr::If(i) => {
                // `if let PAT-with-string`
                if let Expr::Let(l) = &mut *i.cond {
                    let mut ds = vec![];
                    deref_pats(&mut l.pat, &mut self.tmp, &mut ds);
                    if !ds.is_empty() {
                        self.log.d("reference pattern");
                        let old = std::mem::take(&mut i.then_branch.stmts);
                        i.then_branch.stmts = ds;
                        i.then_branch.stmts.extend(old);
                    }
                    let mut g = vec![];
                    let mut p = (*l.pat).clone();
                    self.strip_pat(&mut p, &mut g, true);
                    if !g.is_empty() {
                        let x = &l.expr;
                        let th = &i.then_branch;
                        let el: syn::Block = match &i.else_branch {
                            Some((_, b)) => syn::parse_quote!({ #b }),
                            None => syn::parse_quote!({}),
                        };
                        let mut ne: Expr = syn::parse_quote!(match #x { #p if #(#g)&&* => #th, _ => #el });
                        self.visit_expr_mut(&mut ne);
                        *e = ne;
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Binary(_) => {
                visit_mut::visit_expr_mut(self, e);
                // a block on the left would end the expression there
                if let Expr::Binary(b) = e {
                    if let Expr::Verbatim(t) = &*b.left {
                        if !matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_)) {
                            b.left = Box::new(Expr::Verbatim(quote!((#t))));
                        }
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn std_path(p: &mut syn::Path) {
    if p.segments.len() > 2 && p.segments[0].ident == "std" && p.segments[1].ident == "collections" {
        p.leading_colon = None;
        p.segments = p.segments.iter().skip(2).cloned().collect();
    }
}

/// `std::collections::X` in a type definition is X
pub struct StdPaths;
impl VisitMut for StdPaths {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        std_path(p);
        visit_mut::visit_path_mut(self, p);
    }
}
