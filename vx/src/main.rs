//! Mechanical extraction of the crate under verification into a Verus crate.
//!
//! vx EXPANDED.rs --prelude prelude.rs --contracts a.vc --contracts b.vc --out gen.rs --map map.json
//!    [--prop C05] [--undecided key]... [--list]
mod body;
mod contracts;
mod printer;

use body::*;
use contracts::*;
use printer::{selected, Printer};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Args {
    input: String,
    prelude: Vec<String>,
    contracts: Vec<String>,
    out: String,
    map: String,
    prop: Option<String>,
    undecided: BTreeMap<String, String>,
    only: Option<BTreeSet<String>>,
}

fn args() -> Args {
    let mut a = Args {
        input: String::new(),
        prelude: vec![],
        contracts: vec![],
        out: String::new(),
        map: String::new(),
        prop: None,
        undecided: BTreeMap::new(),
        only: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("argument value");
        match x.as_str() {
            "--prelude" => a.prelude.push(v()),
            "--contracts" => a.contracts.push(v()),
            "--out" => a.out = v(),
            "--map" => a.map = v(),
            "--prop" => a.prop = Some(v()),
            "--only" => {
                a.only.get_or_insert_with(BTreeSet::new).insert(v());
            }
            "--undecided" => {
                let s = v();
                let mut p = s.splitn(2, '=');
                let k = p.next().unwrap().to_string();
                a.undecided.insert(k, p.next().unwrap_or("undecided").to_string());
            }
            _ => a.input = x,
        }
    }
    a
}

/// `let NAME = |p| body;` becomes a nested function where the contract gives NAME a header (`closure NAME
/// <generics>(params) -> ret where ..`). A first parameter `vx_self` stands for the captured `self`. Calls get
/// it as first argument; NAME passed to an adapter is wrapped in a closure that calls it. The body is untouched.
fn lift_closures(b: &mut Block, headers: &BTreeMap<String, String>) {
    fn subst_self(ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) if i == "self" => TokenTree::Ident(format_ident!("vx_self")),
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), subst_self(g.stream()));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => t,
            })
            .collect()
    }
    struct Calls<'x> {
        caps: &'x BTreeMap<String, bool>,
        me: Expr,
    }
    impl<'x> Calls<'x> {
        fn named(&self, e: &Expr) -> Option<(Ident, bool)> {
            let mut e = e;
            while let Expr::Reference(r) = e {
                e = &r.expr;
            }
            if let Expr::Path(p) = e {
                if let Some(i) = p.path.get_ident() {
                    if let Some(c) = self.caps.get(&i.to_string()) {
                        return Some((i.clone(), *c));
                    }
                }
            }
            None
        }
    }
    impl<'x> VisitMut for Calls<'x> {
        fn visit_item_mut(&mut self, _: &mut Item) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let me = self.me.clone();
            match e {
                Expr::Call(c) => {
                    if let Some((i, cap)) = self.named(&c.func) {
                        for a in c.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        let args = c.args.iter();
                        *e = if cap { parse_quote!(#i(#me, #(#args),*)) } else { parse_quote!(#i(#(#args),*)) };
                        return;
                    }
                }
                Expr::MethodCall(m) => {
                    for a in m.args.iter_mut() {
                        if let Some((i, true)) = self.named(a) {
                            *a = parse_quote!(|vx_x| #i(#me, vx_x));
                        } else {
                            self.visit_expr_mut(a);
                        }
                    }
                    self.visit_expr_mut(&mut m.receiver);
                    return;
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut caps = BTreeMap::new();
    for (n, h) in headers {
        caps.insert(n.clone(), h.contains("vx_self"));
    }
    let mut keep: Vec<Stmt> = vec![];
    let mut fns: Vec<Stmt> = vec![];
    let mut rest: Vec<Stmt> = vec![];
    for s in b.stmts.drain(..) {
        if let Stmt::Local(l) = &s {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if let (Some(h), Expr::Closure(c)) = (headers.get(&i.ident.to_string()), &*init.expr) {
                    let name = &i.ident;
                    let sig: std::result::Result<Signature, syn::Error> = syn::parse_str(&format!("fn {}{}", name, h));
                    if let Ok(sig) = sig {
                        let names: Vec<Ident> = sig
                            .inputs
                            .iter()
                            .filter_map(|a| match a {
                                FnArg::Typed(t) => match &*t.pat {
                                    Pat::Ident(i) if i.ident != "vx_self" => Some(i.ident.clone()),
                                    _ => None,
                                },
                                _ => None,
                            })
                            .collect();
                        if names.len() == c.inputs.len() {
                            let mut lets: Vec<Stmt> = vec![];
                            for (p, n) in c.inputs.iter().zip(&names) {
                                let p = match p {
                                    Pat::Type(t) => &t.pat,
                                    p => p,
                                };
                                if p.to_token_stream().to_string() != n.to_string() {
                                    lets.push(parse_quote!(let #p = #n;));
                                }
                            }
                            let body: Expr = syn::parse2(subst_self(c.body.to_token_stream())).unwrap();
                            let mut stmts: Vec<Stmt> = match body {
                                Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.stmts,
                                e => vec![Stmt::Expr(e, None)],
                            };
                            lets.append(&mut stmts);
                            let mut blk: Block = parse_quote!({ #(#lets)* });
                            Calls { caps: &caps, me: parse_quote!(vx_self) }.visit_block_mut(&mut blk);
                            fns.push(parse_quote!(#sig #blk));
                            continue;
                        }
                    }
                }
            }
        }
        rest.push(s);
    }
    for s in rest {
        if matches!(s, Stmt::Item(_)) {
            keep.push(s);
            continue;
        }
        let mut s = s;
        Calls { caps: &caps, me: parse_quote!(self) }.visit_stmt_mut(&mut s);
        keep.push(s);
    }
    fns.extend(keep);
    b.stmts = fns;
}

// ---------------------------------------------------------------------------------------
// helpers

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

/// Path rewrites that apply to whole items (bodies, signatures, types).
struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() >= 2 && segs[0] == "std" && segs[1] == "iter" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            let mut np: Path = parse_quote!(crate::vf::iter);
            np.segments.extend(rest);
            *p = np;
        } else if segs.len() >= 2 && segs[0] == "void" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            let mut np: Path = parse_quote!(crate::vf::void);
            np.segments.extend(rest);
            *p = np;
        }
    }
    fn visit_use_tree_mut(&mut self, t: &mut UseTree) {
        if let UseTree::Path(p) = t {
            if p.ident == "void" {
                let inner = &p.tree;
                *t = parse_quote!(crate::vf::void::#inner);
                return;
            }
            if p.ident == "std" {
                if let UseTree::Path(q) = &*p.tree {
                    if q.ident == "iter" {
                        let inner = &q.tree;
                        *t = parse_quote!(crate::vf::iter::#inner);
                        return;
                    }
                }
                if let UseTree::Rename(q) = &*p.tree {
                    if q.ident == "iter" {
                        let r = &q.rename;
                        *t = parse_quote!(crate::vf::iter as #r);
                        return;
                    }
                }
            }
        }
    }
}

/// `I: Iterator<Item = X>` becomes `I: crate::vf::RawIterator<X>` (or a token stream bound).
struct Bounds {
    /// inside `parse::iter` a plain `Iterator` bound means a token stream
    stream: bool,
}
fn assoc_item(seg: &PathSegment) -> Option<Type> {
    if let PathArguments::AngleBracketed(a) = &seg.arguments {
        for x in &a.args {
            if let GenericArgument::AssocType(t) = x {
                if t.ident == "Item" {
                    return Some(t.ty.clone());
                }
            }
        }
    }
    None
}
impl VisitMut for Bounds {
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        let last = b.path.segments.last().unwrap().clone();
        let n = last.ident.to_string();
        match n.as_str() {
            "Iterator" => match assoc_item(&last) {
                Some(t) => b.path = parse_quote!(crate::vf::RawIterator<Item = #t>),
                None if self.stream => b.path = parse_quote!(crate::vf::TokenStream),
                None => b.path = parse_quote!(crate::vf::RawIterator),
            },
            "IntoIterator" => {
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    let mut it: Option<Type> = None;
                    let mut item: Option<Type> = None;
                    for x in &a.args {
                        if let GenericArgument::AssocType(t) = x {
                            if t.ident == "IntoIter" {
                                it = Some(t.ty.clone());
                            } else if t.ident == "Item" {
                                item = Some(t.ty.clone());
                            }
                        }
                    }
                    if let (Some(i), Some(x)) = (it, item) {
                        let _ = x;
                        b.path = parse_quote!(crate::vf::VxIntoIter<It = #i>);
                    }
                }
            }
            "Display" => b.path = parse_quote!(crate::vf::Disp),
            // only `fn` items are passed for these, which are stateless
            "FnMut" => {
                if let Some(l) = b.path.segments.last_mut() {
                    l.ident = format_ident!("Fn");
                }
            }
            _ => {
                if assoc_item(&last).is_some() {
                    if let Some(l) = b.path.segments.last_mut() {
                        l.arguments = PathArguments::None;
                    }
                }
            }
        }
    }
}

struct SelfItem(Type, bool);
impl VisitMut for SelfItem {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let s = p.to_token_stream().to_string().replace(' ', "");
            if s == "Self::Item" || (self.1 && s == "I::Item") {
                *t = self.0.clone();
            }
        }
    }
}

struct Dyn;
impl VisitMut for Dyn {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Reference(r) = t {
            if let Type::TraitObject(o) = &*r.elem {
                if o.to_token_stream().to_string().contains("RewindableTokenIterator") {
                    let l = r.lifetime.clone();
                    *t = parse_quote!(crate::vf::Dyn<#l>);
                }
            }
        }
    }
}

struct AllPub;
impl VisitMut for AllPub {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        if i.trait_.is_none() {
            visit_mut::visit_item_impl_mut(self, i);
        }
    }
    fn visit_variant_mut(&mut self, _: &mut Variant) {}
    fn visit_block_mut(&mut self, _: &mut Block) {}
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => {
            if r.mutability.is_some() {
                "RefMut".into()
            } else {
                "Ref".into()
            }
        }
        _ => "Other".into(),
    }
}

fn ends(p: &Path, s: &str) -> bool {
    p.segments.last().map_or(false, |x| x.ident == s)
}

/// `Display` implementations: formatters, `write_str("..")` and `write!(f, "..{}..", x)` in terms of the stubs of the prelude.
struct Display;
fn reveal_lit(l: &LitStr) -> TokenStream {
    quote!(__vx_reveal!(#l);)
}
/// The pieces of a format string, or None if it uses more than `{}` and `{N}`.
fn format_pieces(s: &str) -> Option<Vec<std::result::Result<String, usize>>> {
    let (mut out, mut lit, mut n) = (vec![], String::new(), 0);
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if (c == '{' || c == '}') && it.peek() == Some(&c) {
            it.next();
            lit.push(c);
        } else if c == '{' {
            let mut arg = String::new();
            loop {
                match it.next()? {
                    '}' => break,
                    c => arg.push(c),
                }
            }
            let k = if arg.is_empty() { n += 1; n - 1 } else { arg.parse().ok()? };
            if !lit.is_empty() {
                out.push(Ok(std::mem::take(&mut lit)));
            }
            out.push(Err(k));
        } else if c == '}' {
            return None;
        } else {
            lit.push(c);
        }
    }
    if !lit.is_empty() || out.is_empty() {
        out.push(Ok(lit));
    }
    Some(out)
}
impl VisitMut for Display {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let fmt = s.iter().any(|x| x == "fmt");
                match s.last().map(|x| x.as_str()) {
                    Some("Formatter") => *t = parse_quote!(crate::vf::Fmt),
                    Some("Result") if fmt => *t = parse_quote!(Result<(), crate::vf::FmtErr>),
                    Some("Error") if fmt => *t = parse_quote!(crate::vf::FmtErr),
                    _ => {}
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "write_str" {
                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = m.args.first() {
                    let r = reveal_lit(l);
                    let m = m.clone();
                    *e = parse_quote!({ #r #m });
                    return;
                }
            }
        }
        let c = match e {
            Expr::Call(c) => c,
            _ => return,
        };
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        if !f.ends_with("vf::vf_write") || c.args.len() != 2 {
            return;
        }
        let dest = c.args[0].clone();
        let ts = match &c.args[1] {
            Expr::Macro(m) if m.mac.path.is_ident("format_args") => m.mac.tokens.clone(),
            _ => return,
        };
        let args = match syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts) {
            Ok(a) => a,
            Err(_) => return,
        };
        let mut args: Vec<Expr> = args.into_iter().collect();
        if args.is_empty() {
            return;
        }
        let lit = match args.remove(0) {
            Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => l,
            _ => return,
        };
        let pieces = match format_pieces(&lit.value()) {
            Some(p) => p,
            None => return,
        };
        if pieces.iter().any(|p| matches!(p, Err(k) if *k >= args.len())) {
            return;
        }
        let mut acc: Option<Expr> = None;
        for p in pieces.iter().rev() {
            let step: Expr = match p {
                Ok(s) => {
                    let l = LitStr::new(s, Span::call_site());
                    let r = reveal_lit(&l);
                    parse_quote!({ #r crate::vf::vf_lit(#dest, #l) })
                }
                Err(k) => {
                    let a = &args[*k];
                    parse_quote!(crate::vf::vf_disp(#dest, &(#a)))
                }
            };
            acc = Some(match acc {
                None => step,
                Some(rest) => parse_quote!(match #step { Err(e) => Err(e), Ok(()) => #rest }),
            });
        }
        *e = acc.unwrap();
    }
}

struct Leftover(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Leftover {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Closure(_) => self.0.push("closure".into()),
            Expr::ForLoop(_) => self.0.push("for loop".into()),
            Expr::While(_) => self.0.push("while loop".into()),
            Expr::Try(_) => self.0.push("`?`".into()),
            Expr::Await(_) | Expr::Async(_) | Expr::Unsafe(_) => self.0.push("unsupported expression".into()),
            Expr::Macro(m) => {
                let n = m.mac.path.to_token_stream().to_string();
                if !n.starts_with("__vx") {
                    self.0.push(format!("macro {}", n))
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}

// ---------------------------------------------------------------------------------------

struct FnInfo {
    key: String,
    status: String, // verified | contract-only | trusted | undecided | declaration
    reason: String,
    start: usize,
    end: usize,
    calls: BTreeSet<String>,
    hash: String,
    loops: usize,
}

struct Gen<'a> {
    c: &'a Contracts,
    args: &'a Args,
    p: Printer<'a>,
    fns: Vec<FnInfo>,
    dropped: Vec<Value>,
    used_raw: BTreeSet<usize>,
    used_raw_mod: BTreeSet<usize>,
    seen: BTreeSet<String>,
    relevant: Option<BTreeSet<String>>,
}

struct Calls(BTreeSet<String>);
impl<'ast> syn::visit::Visit<'ast> for Calls {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.0.insert(i.to_string());
    }
}

impl<'a> Gen<'a> {
    fn dropped(&mut self, key: &str, why: &str, ts: &impl ToTokens) {
        let h = fnv(&ts.to_token_stream().to_string());
        self.dropped.push(json!({"item": key, "why": why, "hash": h}));
    }

    fn items(&mut self, path: &str, items: Vec<Item>) {
        let mods: Vec<(usize, String)> = self
            .c
            .mods
            .iter()
            .enumerate()
            .filter(|(_, m)| m.key == path && selected(&m.tags, &self.args.prop))
            .map(|(i, m)| (i, m.text.clone()))
            .collect();
        for (i, m) in mods {
            self.used_raw_mod.insert(i);
            self.p.nl();
            self.p.raw(&m);
            self.p.nl();
        }
        for it in items {
            self.item(path, it);
        }
    }

    fn is_derived(attrs: &[Attribute]) -> bool {
        attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
    }

    fn item(&mut self, path: &str, it: Item) {
        let join = |n: &str| if path.is_empty() { n.to_string() } else { format!("{}::{}", path, n) };
        match it {
            Item::ExternCrate(_) | Item::Macro(_) => {}
            Item::Use(mut u) => {
                if u.to_token_stream().to_string().contains("prelude ::") {
                    return;
                }
                u.attrs.clear();
                Paths.visit_item_use_mut(&mut u);
                if path.ends_with("default_builder") || true {
                    u.vis = parse_quote!(pub);
                }
                // `pub use` of std items is harmless
                self.p.nl();
                self.p.tokens(u.to_token_stream());
            }
            Item::Mod(m) => {
                let name = m.ident.to_string();
                let p = join(&name);
                let (_, content) = m.content.expect("expanded module");
                self.p.nl();
                self.p.raw(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::vf::*;\n", name));
                self.items(&p, content);
                self.p.nl();
                self.p.raw("}\n");
            }
            Item::Struct(mut s) => {
                let k = join(&s.ident.to_string());
                s.attrs.clear();
                StripAttrs.visit_item_struct_mut(&mut s);
                AllPub.visit_item_struct_mut(&mut s);
                Paths.visit_item_struct_mut(&mut s);
                Bounds { stream: path.ends_with("iter") }.visit_item_struct_mut(&mut s);
                Dyn.visit_item_struct_mut(&mut s);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                self.ty_item(&k, s.to_token_stream());
            }
            Item::Enum(mut s) => {
                let k = join(&s.ident.to_string());
                s.attrs.clear();
                StripAttrs.visit_item_enum_mut(&mut s);
                AllPub.visit_item_enum_mut(&mut s);
                Paths.visit_item_enum_mut(&mut s);
                self.ty_item(&k, s.to_token_stream());
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                Paths.visit_item_type_mut(&mut t);
                self.p.nl();
                self.p.tokens(t.to_token_stream());
            }
            Item::Const(mut c) => {
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                if let Type::Reference(r) = &mut *c.ty {
                    if r.lifetime.is_none() {
                        r.lifetime = Some(parse_quote!('static));
                    }
                }
                self.p.nl();
                self.p.tokens(c.to_token_stream());
            }
            Item::Static(s) => {
                self.dropped(&join(&s.ident.to_string()), "static", &s);
            }
            Item::Fn(f) => {
                let key = join(&f.sig.ident.to_string());
                self.free_fn(&key, f);
            }
            Item::Trait(t) => self.trait_item(path, t),
            Item::Impl(i) => self.impl_item(path, i),
            other => {
                self.dropped(&join("?"), "unsupported item", &other);
            }
        }
    }

    fn ty_item(&mut self, key: &str, ts: TokenStream) {
        self.p.nl();
        let attr = self.c.fingerprints.get(&format!("attr {}", key)).cloned();
        if let Some(a) = attr {
            self.p.raw(&format!("{}\n", a));
        }
        self.p.tokens(ts);
    }

    fn free_fn(&mut self, key: &str, mut f: ItemFn) {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
        let name = key.rsplit("::").next().unwrap().to_string();
        let _ = name;
        self.function(key, f.sig.clone(), Some(*f.block), true);
    }

    fn impl_raw(&mut self, key: &str) {
        let raws: Vec<(usize, String)> = self
            .c
            .impls
            .iter()
            .enumerate()
            .filter(|(_, m)| m.key == key && selected(&m.tags, &self.args.prop))
            .map(|(i, m)| (i, m.text.clone()))
            .collect();
        for (i, t) in raws {
            if !self.used_raw.insert(i) {
                continue; // one inherent impl is enough
            }
            self.p.nl();
            self.p.raw(&t);
            self.p.nl();
        }
    }

    fn trait_item(&mut self, path: &str, mut t: ItemTrait) {
        let name = t.ident.to_string();
        let key = format!("{}::{}", path, name);
        StripAttrs.visit_item_trait_mut(&mut t);
        Paths.visit_item_trait_mut(&mut t);
        Bounds { stream: path.ends_with("iter") }.visit_item_trait_mut(&mut t);
        SelfItem(parse_quote!(crate::token::Token), true).visit_item_trait_mut(&mut t);
        t.vis = parse_quote!(pub);
        let head = {
            let (ident, generics, sup) = (&t.ident, &t.generics, &t.supertraits);
            let w = &t.generics.where_clause;
            let extra = self.c.bounds.get(&format!("supertrait {}", key)).cloned();
            let mut h = if sup.is_empty() {
                quote!(pub trait #ident #generics)
            } else {
                quote!(pub trait #ident #generics : #sup)
            };
            if let Some(e) = extra {
                let ts: TokenStream = e.parse().unwrap();
                h = if sup.is_empty() { quote!(#h : #ts) } else { quote!(#h + #ts) };
            }
            quote!(#h #w)
        };
        self.p.nl();
        self.p.tokens(head);
        self.p.raw("{\n");
        self.p.indent += 1;
        self.impl_raw(&key);
        for it in t.items {
            match it {
                TraitItem::Fn(f) => {
                    let k = format!("{}::{}", key, f.sig.ident);
                    self.function(&k, f.sig.clone(), f.default, false);
                }
                TraitItem::Type(ty) => {
                    self.p.nl();
                    self.p.tokens(ty.to_token_stream());
                }
                o => self.dropped(&key, "trait item", &o),
            }
        }
        self.p.indent -= 1;
        self.p.nl();
        self.p.raw("}\n");
    }

    fn derived(&mut self, i: &ItemImpl, tr: &Path) {
        let Some(name) = tr.segments.last().map(|s| s.ident.to_string()) else { return };
        let ty = &i.self_ty;
        let generic = i.generics.type_params().next().is_some();
        let mut g = i.generics.clone();
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                t.bounds.clear();
            }
        }
        let wh = quote!();
        let lts = i.generics.lifetimes().next().is_some();
        match name.as_str() {
            "Clone" if !generic && !lts => {
                self.p.nl();
                self.p.tokens(quote!(impl #g Clone for #ty #wh));
                self.p.raw("{\n#[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }\n}\n");
            }
            "Copy" if !generic => {
                self.p.nl();
                self.p.tokens(quote!(impl #g Copy for #ty #wh {}));
            }
            "PartialEq" if !generic && !lts => {
                self.p.nl();
                self.p.tokens(quote!(impl #g vstd::std_specs::cmp::PartialEqSpecImpl for #ty));
                self.p.raw("{\nopen spec fn obeys_eq_spec() -> bool { true }\nopen spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }\n}\n");
                self.p.tokens(quote!(impl #g PartialEq for #ty));
                self.p.raw("{\n#[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }\n}\n");
            }
            "PartialEq" if type_name(ty) == "Parameter" => {
                // the parser compares parameters with a `String` name
                self.p.raw("\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for Parameter<String> {\nopen spec fn obeys_eq_spec() -> bool { true }\nopen spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }\n}\n");
                self.p.raw("impl PartialEq for Parameter<String> {\n#[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }\n}\n");
            }
            "Eq" if !generic && !lts => {
                self.p.nl();
                self.p.tokens(quote!(impl #g Eq for #ty {}));
            }
            _ => {}
        }
    }

    fn impl_item(&mut self, path: &str, mut i: ItemImpl) {
        let tyname = type_name(&i.self_ty);
        let key = format!("{}::{}", path, tyname);
        let derived = Self::is_derived(&i.attrs);
        StripAttrs.visit_item_impl_mut(&mut i);
        Paths.visit_item_impl_mut(&mut i);
        Dyn.visit_item_impl_mut(&mut i);
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.clone());
        if derived {
            self.derived(&i, &tr.unwrap());
            return;
        }
        let mut inherent_iter = false;
        let mut token_stream = false;
        let mut drop_impl = false;
        if let Some(tr) = &tr {
            let last = tr.segments.last().unwrap().ident.to_string();
            match last.as_str() {
                "Display" if ["Token", "Parameter", "SourcePos", "ParseError"].contains(&tyname.as_str()) => {
                    inherent_iter = true;
                    Display.visit_item_impl_mut(&mut i);
                }
                "Debug" | "Display" | "Error" | "FusedIterator" | "Deref" | "DerefMut" | "PartialEq" => {
                    self.dropped(&format!("impl {} for {}", last, key), "outside the verified text", &i);
                    return;
                }
                "Clone" | "Copy" => {
                    // hand written Clone/Copy of the zero sized builders
                    self.dropped(&format!("impl {} for {}", last, key), "outside the verified text", &i);
                    if last == "Clone" {
                        let (g, ty) = (&i.generics, &i.self_ty);
                        self.p.nl();
                        self.p.tokens(quote!(impl #g Clone for #ty));
                        self.p.raw("{\n#[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() }\n}\n");
                    } else {
                        self.p.nl();
                        self.p.tokens(i.to_token_stream());
                    }
                    return;
                }
                "Iterator" => {
                    if ["TokenIter", "TokenIterWrapper"].contains(&tyname.as_str()) {
                        token_stream = true;
                    } else {
                        inherent_iter = true;
                    }
                }
                "IntoIterator" => inherent_iter = true,
                "PositionIterator" if tyname == "Balanced" => inherent_iter = true,
                "Drop" => drop_impl = true,
                "PeekableIterator" if tyname == "Peekable" => {
                    self.dropped(&format!("impl {} for std {}", last, key), "outside the verified text", &i);
                    return;
                }
                _ => {}
            }
        }
        let stream = path.ends_with("iter");
        Bounds { stream }.visit_item_impl_mut(&mut i);
        // Self::Item / associated types of converted iterator impls
        let mut item: Option<Type> = None;
        let mut into_iter: Option<Type> = None;
        if inherent_iter || token_stream {
            for x in &i.items {
                if let ImplItem::Type(t) = x {
                    if t.ident == "Item" {
                        item = Some(t.ty.clone());
                    }
                    if t.ident == "IntoIter" {
                        into_iter = Some(t.ty.clone());
                    }
                }
            }
            i.items.retain(|x| !matches!(x, ImplItem::Type(_)));
        }
        let item = item.unwrap_or_else(|| parse_quote!(crate::token::Token));
        SelfItem(item, stream).visit_item_impl_mut(&mut i);
        if let Some(t) = into_iter {
            struct SI(Type);
            impl VisitMut for SI {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    visit_mut::visit_type_mut(self, t);
                    if t.to_token_stream().to_string().replace(' ', "") == "Self::IntoIter" {
                        *t = self.0.clone();
                    }
                }
            }
            SI(t).visit_item_impl_mut(&mut i);
        }
        let trait_part: Option<TokenStream> = if inherent_iter || drop_impl {
            None
        } else if token_stream {
            Some(quote!(crate::vf::TokenStream for))
        } else {
            tr.as_ref().map(|t| quote!(#t for))
        };
        let ikey = match &tr {
            Some(t) if !inherent_iter && !drop_impl => {
                format!("{} for {}", t.segments.last().unwrap().ident, key)
            }
            _ => key.clone(),
        };
        let is_trait = trait_part.is_some();
        let (gp, ty, wh) = (&i.generics.params, &i.self_ty, &i.generics.where_clause);
        let gen = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
        self.p.nl();
        let header_where = match self.c.bounds.get(&format!("where {}", ikey)) {
            Some(s) => {
                let ts: TokenStream = s.parse().unwrap();
                match wh {
                    Some(w) => quote!(#w #ts),
                    None => quote!(where #ts),
                }
            }
            None => quote!(#wh),
        };
        self.p.tokens(quote!(impl #gen #trait_part #ty #header_where));
        self.p.raw("{\n");
        self.p.indent += 1;
        self.impl_raw(&ikey);
        let mut hoisted: Vec<(String, ItemFn)> = vec![];
        for x in i.items {
            match x {
                ImplItem::Fn(mut f) => {
                    let mname = f.sig.ident.to_string();
                    if token_stream && mname != "next" {
                        self.dropped(&format!("{}::{}", key, mname), "not part of the modelled stream trait", &f);
                        continue;
                    }
                    if drop_impl {
                        f.sig.ident = format_ident!("vx_drop");
                        // drop takes the value out of reach
                        f.sig.inputs = parse_quote!(mut self);
                    }
                    let k = format!("{}::{}", key, f.sig.ident);
                    self.hoist(&k, &mut f.block, &mut hoisted);
                    self.function(&k, f.sig.clone(), Some(f.block), !is_trait);
                }
                ImplItem::Type(t) => {
                    self.p.nl();
                    self.p.tokens(t.to_token_stream());
                }
                o => self.dropped(&key, "impl item", &o),
            }
        }
        self.p.indent -= 1;
        self.p.nl();
        self.p.raw("}\n");
        for (k, f) in hoisted {
            self.function(&k, f.sig.clone(), Some(*f.block), true);
        }
    }

    /// Nested functions become module level functions `Type__method__inner`.
    fn hoist(&mut self, key: &str, b: &mut Block, out: &mut Vec<(String, ItemFn)>) {
        if let Some(f) = self.c.fns.get(key) {
            if !f.closures.is_empty() {
                lift_closures(b, &f.closures.clone());
            }
        }
        struct Collect {
            prefix: String,
            key: String,
            found: Vec<(String, String, String, ItemFn)>,
            uses: Vec<Stmt>,
        }
        impl VisitMut for Collect {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let uses: Vec<Stmt> = b
                    .stmts
                    .iter()
                    .filter(|s| matches!(s, Stmt::Item(Item::Use(_))))
                    .cloned()
                    .collect();
                let n = self.uses.len();
                self.uses.extend(uses);
                let mut keep = vec![];
                for s in b.stmts.drain(..) {
                    if let Stmt::Item(Item::Fn(mut f)) = s {
                        let name = f.sig.ident.to_string();
                        let new = format!("{}__{}", self.prefix, name);
                        let k = format!("{}::{}", self.key, name);
                        let mut pre = self.uses.clone();
                        pre.extend(f.block.stmts.drain(..));
                        f.block.stmts = pre;
                        self.found.push((name, new, k, f));
                    } else if let Stmt::Item(Item::Macro(_)) = s {
                    } else {
                        keep.push(s);
                    }
                }
                b.stmts = keep;
                visit_mut::visit_block_mut(self, b);
                self.uses.truncate(n);
            }
            fn visit_item_mut(&mut self, _: &mut Item) {}
        }
        let segs: Vec<&str> = key.split("::").collect();
        let prefix = segs[segs.len() - 2..].join("__");
        let mut c = Collect { prefix, key: key.to_string(), found: vec![], uses: vec![] };
        c.visit_block_mut(b);
        let ren: Vec<(String, String)> = c.found.iter().map(|f| (f.0.clone(), f.1.clone())).collect();
        for (from, to) in &ren {
            let id = Ident::new(to, Span::call_site());
            SubstIdent { from: from.clone(), to: parse_quote!(#id) }.visit_block_mut(b);
        }
        for (_, new, k, mut f) in c.found {
            for (from, to) in &ren {
                let id = Ident::new(to, Span::call_site());
                SubstIdent { from: from.clone(), to: parse_quote!(#id) }.visit_block_mut(&mut f.block);
            }
            f.sig.ident = Ident::new(&new, Span::call_site());
            // nested functions of nested functions
            let mut more = vec![];
            self.hoist(&k, &mut f.block, &mut more);
            out.push((k, f));
            out.extend(more);
        }
    }

    fn function(&mut self, key: &str, mut sig: Signature, block: Option<Block>, vis: bool) {
        let mut block = block;
        let mut extra = vec![];
        if let Some(b) = &mut block {
            self.hoist(key, b, &mut extra);
        }
        let extra_after = extra;
        let mut key = key.to_string();
        while !self.seen.insert(key.clone()) {
            key.push('\'');
        }
        let key = key.as_str();
        let hash = fnv(&format!("{} {}", sig.to_token_stream(), block.to_token_stream()));
        let fc = self.c.fns.get(key).cloned();
        let mut status = "verified".to_string();
        let mut reason = String::new();
        let mut calls = Calls(BTreeSet::new());
        if let Some(b) = &block {
            syn::visit::Visit::visit_block(&mut calls, b);
        }
        Bounds { stream: key.contains("parse::iter::") }.visit_signature_mut(&mut sig);
        Dyn.visit_signature_mut(&mut sig);

        // Multipeek::new receives a trait object; make the coercion explicit
        if key.ends_with("Multipeek::new") {
            let mut name = None;
            for a in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = a {
                    if t.ty.to_token_stream().to_string().contains("Dyn") {
                        if let Pat::Ident(i) = &*t.pat {
                            name = Some(i.ident.clone());
                        }
                        t.ty = Box::new(parse_quote!(&'a mut T));
                    }
                }
            }
            if let (Some(n), Some(b)) = (name, &mut block) {
                sig.generics = parse_quote!(<T: RewindableTokenIterator>);
                b.stmts.insert(0, parse_quote!(let #n = crate::vf::Dyn::mk(#n);));
            }
        }

        // `mut self` is not supported: rebind
        let by_val_mut = matches!(sig.inputs.first(),
            Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none());
        if let (true, Some(b)) = (by_val_mut, &mut block) {
            sig.inputs[0] = parse_quote!(self);
            fn sub(ts: TokenStream) -> TokenStream {
                ts.into_iter()
                    .map(|t| match t {
                        TokenTree::Ident(i) if i == "self" => TokenTree::Ident(format_ident!("__vx_self")),
                        TokenTree::Group(g) => {
                            let mut n = proc_macro2::Group::new(g.delimiter(), sub(g.stream()));
                            n.set_span(g.span());
                            TokenTree::Group(n)
                        }
                        t => t,
                    })
                    .collect()
            }
            let stmts = sub({ let s = &b.stmts; quote!(#(#s)*) });
            let nb: Block = parse_quote!({ let mut __vx_self = self; #stmts });
            *b = nb;
        }

        let ret_is_option = match &sig.output {
            ReturnType::Type(_, t) => type_name(t) == "Option",
            _ => false,
        };
        let mut nloops = 0;
        if let Some(b) = &mut block {
            StripAttrs.visit_block_mut(b);
            Paths.visit_block_mut(b);
            let mut closures = BTreeMap::new();
            collect_closures(b, &mut closures);
            let mut d = Desugar {
                key: key.to_string(),
                contract: self.c.fns.get(key),
                ret_is_option,
                errors: vec![],
                closures,
                used_closures: BTreeSet::new(),
                names: Default::default(),
                combinators: 0,
                try_ok: false,
            };
            d.visit_block_mut(b);
            let errs = d.errors;
            let mut de = DropElab::new();
            de.run_fn(b);
            let mut lo = Leftover(vec![]);
            syn::visit::Visit::visit_block(&mut lo, b);
            let mut all = errs;
            all.extend(de.errors);
            all.extend(lo.0);
            if !all.is_empty() {
                status = "undecided".into();
                reason = format!("outside the supported dialect: {}", all.join(", "));
            }
            resolve_after_guards(&sig, b);
            nloops = count_loops(b);
            let mut an = Anchors { key: key.to_string(), contract: self.c.fns.get(key), n: 0, used_anchors: BTreeSet::new(), calls: BTreeMap::new() };
            an.run(b);
            if let Some(f) = &fc {
                let want = f.nloops.unwrap_or_else(|| f.loops.keys().max().copied().unwrap_or(0));
                if want != nloops && status == "verified" && f.external.is_none() {
                    status = "undecided".into();
                    reason = format!("{} loops found, contract describes {}", nloops, want);
                }
                for p in &f.proofs {
                    if !an.used_anchors.contains(&p.anchor) && status == "verified" {
                        status = "undecided".into();
                        reason = format!("proof anchor `{}` not found", p.anchor);
                    }
                }
            } else if nloops > 0 && status == "verified" {
                status = "contract-only".into();
                reason = "loop without a contract".into();
            }
            // mutable parameters
            let mut rebinds: Vec<Stmt> = vec![];
            for a in sig.inputs.iter_mut() {
                match a {
                    FnArg::Typed(t) => {
                        if let Pat::Ident(i) = &mut *t.pat {
                            if i.mutability.is_some() {
                                i.mutability = None;
                                let id = &i.ident;
                                rebinds.push(parse_quote!(let mut #id = #id;));
                            }
                        }
                    }
                    _ => {}
                }
            }
            rebinds.extend(b.stmts.drain(..));
            b.stmts = rebinds;
        } else {
            status = "declaration".into();
        }
        if let Some(f) = &fc {
            if let Some(r) = &f.external {
                status = "trusted".into();
                reason = r.clone();
            }
        } else if status == "verified" {
            status = "contract-only".into();
            reason = "no contract".into();
        }
        if let Some(r) = self.args.undecided.get(key) {
            if status == "verified" {
                status = "undecided".into();
                reason = r.clone();
            }
        }
        if let Some(rel) = &self.relevant {
            if status == "verified" && !rel.contains(key) {
                status = "contract-only".into();
                reason = "not needed for this property".into();
            }
        }
        if let Some(o) = &self.args.only {
            if status == "verified" && !o.contains(key) {
                status = "contract-only".into();
                reason = "--only".into();
            }
        }

        // ---- print
        self.p.nl();
        let start = self.p.line;
        if let Some(f) = &fc {
            for a in &f.attrs {
                self.p.raw(&format!("{}\n", a));
            }
        }
        let is_ext = status != "verified" && status != "declaration";
        if status == "verified" && key.starts_with("parse::Parser::") {
            self.p.raw("#[verifier::spinoff_prover]\n");
        }
        if is_ext {
            self.p.raw("#[verifier::external_body]\n");
        } else if fc.as_ref().map_or(false, |f| f.loops.values().any(|l| l.clauses.iter().any(|c| c.kind == "isolate"))) {
            // said loop by loop
        } else if nloops > 0 && !fc.as_ref().map_or(false, |f| f.attrs.iter().any(|a| a.contains("loop_isolation"))) {
            self.p.raw("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
        }
        let ret = fc.as_ref().and_then(|f| f.ret.clone()).unwrap_or_else(|| "r".into());
        if let Some(s) = fc.as_ref().and_then(|f| f.sig.clone()) {
            self.p.raw(&s);
        } else {
            let id = &sig.ident;
            let (gp, wh) = (&sig.generics.params, &sig.generics.where_clause);
            let gen = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
            let ins = &sig.inputs;
            let v = if vis { quote!(pub) } else { quote!() };
            self.p.tokens(quote!(#v fn #id #gen (#ins)));
            if let ReturnType::Type(_, t) = &sig.output {
                if let Type::Never(_) = &**t {
                    self.p.raw(" -> !");
                } else {
                    self.p.raw(&format!(" -> ({}: ", ret));
                    self.p.tokens(t.to_token_stream());
                    self.p.raw(")");
                }
            }
            self.p.tokens(quote!(#wh));
        }
        if let Some(f) = &fc {
            self.p.clauses(key, "fn", &f.spec.clauses);
        }
        match block {
            None => {
                self.p.raw(";\n");
            }
            Some(b) => {
                if is_ext {
                    self.p.raw("{ unimplemented!() }\n");
                } else {
                    let stmts = b.stmts;
                    self.p.tokens(quote!({ #(#stmts)* }));
                }
            }
        }
        self.p.nl();
        let end = self.p.line;
        self.fns.push(FnInfo { key: key.to_string(), status, reason, start, end, calls: calls.0, hash, loops: nloops });
        if !extra_after.is_empty() {
            self.pending(extra_after);
        }
    }

    fn pending(&mut self, _v: Vec<(String, ItemFn)>) {
        // free functions only: impl methods hoist in `impl_item`
        for (k, f) in _v {
            self.function(&k, f.sig.clone(), Some(*f.block), true);
        }
    }
}

fn main() {
    let a = args();
    let c = load(&a.contracts);
    let src = std::fs::read_to_string(&a.input).expect("expanded source");
    let file = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("vx: cannot parse the expanded source: {}", e);
            std::process::exit(3);
        }
    };
    let prelude: String = a.prelude.iter().map(|p| std::fs::read_to_string(p).expect("prelude")).collect();

    let run = |relevant: Option<BTreeSet<String>>| -> (String, Value) {
        let mut g = Gen {
            c: &c,
            args: &a,
            p: Printer::new(&c, a.prop.clone()),
            fns: vec![],
            dropped: vec![],
            used_raw: Default::default(),
            used_raw_mod: Default::default(),
            seen: Default::default(),
            relevant,
        };
        g.p.raw("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, unreachable_patterns, non_snake_case, unused_assignments, path_statements, unused_must_use, non_shorthand_field_patterns, redundant_semicolons)]\n");
        g.p.raw(&prelude);
        g.p.raw("\nverus! {\n");
        g.items("", file.items.clone());
        g.p.raw("} // verus!\nfn main() {}\n");
        let mut missing = vec![];
        for k in c.fns.keys() {
            if !g.seen.contains(k) {
                missing.push(k.clone());
            }
        }
        for (i, m) in c.mods.iter().enumerate() {
            if !g.used_raw_mod.contains(&i) && selected(&m.tags, &a.prop) {
                missing.push(format!("@mod {}", m.key));
            }
        }
        for (i, m) in c.impls.iter().enumerate() {
            if !g.used_raw.contains(&i) && selected(&m.tags, &a.prop) {
                missing.push(format!("@impl {}", m.key));
            }
        }
        let v = json!({
            "functions": g.fns.iter().map(|f| json!({"key": f.key, "status": f.status, "reason": f.reason,
                "start": f.start, "end": f.end, "hash": f.hash, "loops": f.loops, "calls": f.calls})).collect::<Vec<_>>(),
            "clauses": g.p.clause_map,
            "dropped": g.dropped,
            "missing": missing,
        });
        (g.p.out, v)
    };

    let relevant = match &a.prop {
        None => None,
        Some(p) => {
            // functions whose contract mentions the property; the contracts of the others are assumed
            // here and proved under the properties which list them
            let mut set: BTreeSet<String> = BTreeSet::new();
            for (k, fc) in &c.fns {
                let has = |cl: &Vec<Clause>| cl.iter().any(|c| c.tags.iter().any(|t| t == p));
                if p == "C07" || p == "C08"
                    || fc.props.iter().any(|x| x == p || x == "all")
                    || has(&fc.spec.clauses)
                    || fc.loops.values().any(|l| has(&l.clauses))
                    || fc.proofs.iter().any(|pr| pr.tags.iter().any(|t| t == p))
                {
                    set.insert(k.clone());
                }
            }
            Some(set)
        }
    };
    let (out, map) = run(relevant);
    std::fs::write(&a.out, out).unwrap();
    std::fs::write(&a.map, serde_json::to_string_pretty(&map).unwrap()).unwrap();
}
#[allow(dead_code)]
fn _u(p: &Path) -> bool {
    ends(p, "x")
}
