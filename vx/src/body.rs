//! Mechanical desugaring of function bodies into the dialect Verus accepts.
//!
//! Every rewrite below is semantics preserving for the Rust fragment it fires on; whatever does
//! not match one of the rules is left exactly as it is in the source.
use crate::contracts::FnContract;
use proc_macro2::{Ident, Span};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar<'a> {
    pub key: String,
    pub contract: Option<&'a FnContract>,
    pub ret_is_option: bool,
    pub errors: Vec<String>,
    pub closures: BTreeMap<String, ExprClosure>,
    pub used_closures: BTreeSet<String>,
    pub names: std::collections::HashMap<String, usize>,
    pub combinators: usize,
    /// the closure call being inlined is the operand of `?`
    pub try_ok: bool,
}

fn last_method(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Paren(p) => last_method(&p.expr),
        _ => None,
    }
}

pub fn is_binding(id: &Ident) -> bool {
    let s = id.to_string();
    let c = s.chars().next().unwrap();
    c == '_' || c.is_lowercase()
}

/// Removes `&` patterns (Verus lacks them); default binding modes take over.  Returns the
/// identifiers that used to be bound by copy and now are references.
pub fn fix_pat(p: &mut Pat, under: bool, derefs: &mut Vec<Ident>) {
    match p {
        Pat::Reference(r) => {
            let mut inner = (*r.pat).clone();
            fix_pat(&mut inner, true, derefs);
            *p = inner;
        }
        Pat::Paren(x) => {
            let mut inner = (*x.pat).clone();
            fix_pat(&mut inner, under, derefs);
            *p = inner;
        }
        Pat::Ident(i) => {
            if under && is_binding(&i.ident) {
                if i.by_ref.is_some() {
                    i.by_ref = None;
                } else if i.subpat.is_none() {
                    derefs.push(i.ident.clone());
                }
            }
            if let Some((_, s)) = &mut i.subpat {
                let mut d = vec![];
                fix_pat(s, under, &mut d);
                derefs.extend(d);
            }
        }
        Pat::TupleStruct(t) => {
            for e in t.elems.iter_mut() {
                fix_pat(e, under, derefs)
            }
        }
        Pat::Tuple(t) => {
            for e in t.elems.iter_mut() {
                fix_pat(e, under, derefs)
            }
        }
        Pat::Or(o) => {
            for e in o.cases.iter_mut() {
                fix_pat(e, under, derefs)
            }
        }
        Pat::Struct(s) => {
            for f in s.fields.iter_mut() {
                fix_pat(&mut f.pat, under, derefs)
            }
        }
        Pat::Slice(s) => {
            for e in s.elems.iter_mut() {
                fix_pat(e, under, derefs)
            }
        }
        _ => {}
    }
}

pub struct SubstIdent {
    pub from: String,
    pub to: Expr,
}
impl VisitMut for SubstIdent {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.get_ident().map_or(false, |i| *i == self.from) {
                *e = self.to.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if *n == self.from {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

fn dedup(ids: Vec<Ident>) -> Vec<Ident> {
    let mut seen = BTreeSet::new();
    ids.into_iter().filter(|i| seen.insert(i.to_string())).collect()
}

fn uses_ident(e: &impl ToTokens, id: &Ident) -> bool {
    fn go(ts: proc_macro2::TokenStream, id: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == id,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), id),
            _ => false,
        })
    }
    go(e.to_token_stream(), &id.to_string())
}

fn prefix_derefs(block: Expr, derefs: &[Ident]) -> Expr {
    let ds: Vec<Ident> = derefs.iter().filter(|d| uses_ident(&block, d)).cloned().collect();
    if ds.is_empty() {
        return block;
    }
    match block {
        Expr::Block(mut b) if b.label.is_none() => {
            let mut stmts: Vec<Stmt> = ds.iter().map(|d| parse_quote!(let #d = *#d;)).collect();
            stmts.extend(b.block.stmts);
            b.block.stmts = stmts;
            Expr::Block(b)
        }
        other => parse_quote!({ #(let #ds = *#ds;)* #other }),
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

const OPT_RECV: &[&str] = &[
    "next", "peek", "last", "first", "take", "pop", "as_mut", "as_ref", "find", "peek_next", "ok", "get",
    "checked_add", "copied",
];

#[derive(Clone)]
enum Adapter {
    Map(Expr),
    Filter(Expr),
    TakeWhile(Expr),
    FlatMap(Expr),
    Copied,
}

enum Source {
    Iter(Expr),      // X.iter()
    IntoIter(Expr),  // X.into_iter()
    Chars(Expr),     // X.chars()
    ByRef(Expr),     // X.by_ref() / any iterator place
    Other(Expr),     // an iterator value
}

impl<'a> Desugar<'a> {
    fn fresh(&mut self, s: &str) -> Ident {
        // numbered per kind: introducing an unrelated temporary leaves the names contracts use alone
        let n = self.names.entry(s.to_string()).or_insert(0);
        *n += 1;
        format_ident!("__vx_{}{}", s, *n)
    }

    /// Applies a function-like argument (closure, local closure name or path) to `arg`.
    fn apply(&mut self, f: &Expr, args: Vec<Expr>, byref: bool) -> Expr {
        let f = strip_paren(f).clone();
        let f = if let Expr::Reference(r) = &f { (*r.expr).clone() } else { f };
        let clo = match &f {
            Expr::Closure(c) => Some(c.clone()),
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) if self.closures.contains_key(&i.to_string()) => {
                    self.used_closures.insert(i.to_string());
                    Some(self.closures[&i.to_string()].clone())
                }
                _ => None,
            },
            _ => None,
        };
        match clo {
            Some(c) => {
                let mut body = (*c.body).clone();
                let mut lets: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args.into_iter()) {
                    let (pat, ty) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        o => (o.clone(), None),
                    };
                    match (pat, byref) {
                        (Pat::Wild(_), _) => {
                            lets.push(parse_quote!(let _ = #a;));
                        }
                        (Pat::Ident(i), false) if i.subpat.is_none() && i.by_ref.is_none() => {
                            let id = &i.ident;
                            let m = &i.mutability;
                            let simple = matches!(&a, Expr::Path(p) if p.path.get_ident().is_some());
                            if simple && m.is_none() {
                                SubstIdent { from: id.to_string(), to: a }.visit_expr_mut(&mut body);
                            } else if let (Some(ty), false) = (ty, false) {
                                lets.push(parse_quote!(let #m #id: #ty = #a;));
                            } else {
                                lets.push(parse_quote!(let #m #id = #a;));
                            }
                        }
                        // closure takes a reference to the item
                        (Pat::Reference(r), true) => {
                            let inner = &*r.pat;
                            lets.push(parse_quote!(let #inner = #a;));
                        }
                        (Pat::Ident(i), true) => {
                            let id = &i.ident;
                            lets.push(parse_quote!(let #id = &#a;));
                        }
                        (mut pat, false) => {
                            let mut d = vec![];
                            fix_pat(&mut pat, false, &mut d);
                            lets.push(parse_quote!(let #pat = #a;));
                            for x in dedup(d) {
                                lets.push(parse_quote!(let #x = *#x;));
                            }
                        }
                        (pat, true) => {
                            lets.push(parse_quote!(let #pat = &#a;));
                        }
                    }
                }
                let (has_ret, has_try) = has_return(&body);
                if has_ret || (has_try && !self.try_ok) {
                    self.errors.push("return/? inside an inlined closure".into());
                }
                let saved = std::mem::replace(&mut self.try_ok, false);
                self.visit_expr_mut(&mut body);
                self.try_ok = saved;
                if lets.is_empty() {
                    body
                } else {
                    let mut b: Expr = match body {
                        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => Expr::Block(b),
                        o => parse_quote!({ #o }),
                    };
                    if let Expr::Block(b) = &mut b {
                        lets.extend(b.block.stmts.drain(..));
                        b.block.stmts = lets;
                    }
                    b
                }
            }
            None => {
                let args: Vec<Expr> = if byref {
                    args.into_iter().map(|a| parse_quote!(&#a)).collect()
                } else {
                    args
                };
                let mut e: Expr = parse_quote!(#f(#(#args),*));
                if let Expr::Call(_) = &e {
                    self.fix_call(&mut e);
                }
                e
            }
        }
    }

    fn is_option(&mut self, method: &str, recv: &Expr) -> bool {
        self.combinators += 1;
        if let Some(c) = self.contract {
            if let Some(h) = c.hints.get(&format!("{}#{}", method, self.combinators)) {
                return h == "option";
            }
        }
        match strip_paren(recv) {
            Expr::MethodCall(m) => OPT_RECV.contains(&m.method.to_string().as_str()) ||
                (["map", "and_then", "or_else"].contains(&m.method.to_string().as_str()) && false),
            Expr::Path(_) | Expr::Field(_) => true,
            Expr::Match(_) => true,
            Expr::Call(_) => false,
            Expr::Macro(_) => false,
            _ => true,
        }
    }

    /// Splits an iterator chain into its source and adapters.
    fn chain(&self, e: &Expr) -> (Source, Vec<Adapter>) {
        if let Expr::MethodCall(m) = strip_paren(e) {
            let name = m.method.to_string();
            let n = m.args.len();
            let r = (*m.receiver).clone();
            match (name.as_str(), n) {
                ("iter", 0) => return (Source::Iter(r), vec![]),
                ("into_iter", 0) => return (Source::IntoIter(r), vec![]),
                ("chars", 0) => return (Source::Chars(r), vec![]),
                ("by_ref", 0) => return (Source::ByRef(r), vec![]),
                ("map", 1) | ("filter", 1) | ("take_while", 1) | ("flat_map", 1) => {
                    let (s, mut a) = self.chain(&r);
                    let f = m.args[0].clone();
                    a.push(match name.as_str() {
                        "map" => Adapter::Map(f),
                        "filter" => Adapter::Filter(f),
                        "take_while" => Adapter::TakeWhile(f),
                        _ => Adapter::FlatMap(f),
                    });
                    return (s, a);
                }
                ("copied", 0) | ("cloned", 0) => {
                    let (s, mut a) = self.chain(&r);
                    if !matches!(s, Source::Other(_)) {
                        a.push(Adapter::Copied);
                        return (s, a);
                    }
                }
                _ => {}
            }
        }
        (Source::Other(e.clone()), vec![])
    }

    fn is_iter_chain(&self, e: &Expr) -> bool {
        !matches!(self.chain(e).0, Source::Other(_))
    }

    fn adapt(&mut self, item: Expr, ads: &[Adapter], sink: &mut dyn FnMut(&mut Self, Expr) -> Expr) -> Expr {
        if ads.is_empty() {
            return sink(self, item);
        }
        match &ads[0] {
            Adapter::Map(f) => {
                let v = self.apply(f, vec![item], false);
                let rest = self.adapt_bind(v, &ads[1..], sink);
                rest
            }
            Adapter::Copied => {
                let x = self.fresh("x");
                let rest = self.adapt(parse_quote!(#x), &ads[1..], sink);
                parse_quote!({ let #x = *#item; #rest })
            }
            Adapter::Filter(f) => {
                let k = self.apply(f, vec![item.clone()], true);
                let kk = self.fresh("keep");
                let rest = self.adapt(item, &ads[1..], sink);
                parse_quote!({ let #kk = #k; if #kk { #rest } })
            }
            Adapter::TakeWhile(f) => {
                let k = self.apply(f, vec![item.clone()], true);
                let kk = self.fresh("keep");
                let rest = self.adapt(item, &ads[1..], sink);
                parse_quote!({ let #kk = #k; if #kk { #rest } else { break; } })
            }
            Adapter::FlatMap(_) => {
                self.errors.push("flat_map followed by another adapter".into());
                item
            }
        }
    }

    fn adapt_bind(&mut self, v: Expr, ads: &[Adapter], sink: &mut dyn FnMut(&mut Self, Expr) -> Expr) -> Expr {
        let x = self.fresh("m");
        let rest = self.adapt(parse_quote!(#x), ads, sink);
        parse_quote!({ let #x = #v; #rest })
    }

    /// `pre; loop over the chain applying sink to each item; result`
    fn run_chain(
        &mut self,
        chain: &Expr,
        pre: Vec<Stmt>,
        result: Expr,
        sink: &mut dyn FnMut(&mut Self, Expr) -> Expr,
    ) -> Expr {
        let (src, mut ads) = self.chain(chain);
        // a final flat_map over vectors extends element by element through `sink`
        let flat = match ads.last() {
            Some(Adapter::FlatMap(f)) => Some(f.clone()),
            _ => None,
        };
        if flat.is_some() {
            ads.pop();
        }
        let it = self.fresh("it");
        let x = self.fresh("x");
        let (decl, next): (Vec<Stmt>, Expr) = match src {
            Source::Iter(mut e) => {
                self.visit_expr_mut(&mut e);
                (vec![parse_quote!(let mut #it = (#e).vx_iter();)], parse_quote!(#it.next()))
            }
            Source::IntoIter(mut e) => {
                self.visit_expr_mut(&mut e);
                (vec![parse_quote!(let mut #it = (#e).vx_into_iter();)], parse_quote!(#it.next()))
            }
            Source::Chars(mut e) => {
                self.visit_expr_mut(&mut e);
                (vec![parse_quote!(let mut #it = crate::vf::vx_chars(&#e);)], parse_quote!(#it.next()))
            }
            Source::ByRef(mut e) => {
                self.visit_expr_mut(&mut e);
                (vec![], parse_quote!(#e.next()))
            }
            Source::Other(mut e) => {
                self.visit_expr_mut(&mut e);
                (vec![parse_quote!(let mut #it = #e;)], parse_quote!(#it.next()))
            }
        };
        let body = match flat {
            None => self.adapt(parse_quote!(#x), &ads, sink),
            Some(f) => {
                let f2 = f.clone();
                let mut s2 = |me: &mut Self, item: Expr| {
                    let v = me.apply(&f2, vec![item], false);
                    let y = me.fresh("flat");
                    let inner = sink(me, parse_quote!(__vx_flat));
                    let _ = y;
                    // only `collect` into a Vec is supported below a flat_map
                    let _ = inner;
                    parse_quote!(__vx_acc.vx_extend(#v))
                };
                self.adapt(parse_quote!(#x), &ads, &mut s2)
            }
        };
        let body_stmt: Stmt = Stmt::Expr(body, Some(Default::default()));
        parse_quote!({ #(#pre)* #(#decl)* loop { match #next { Some(#x) => { #body_stmt } None => { break; } } } #result })
    }

    /// Rewrites of plain calls.
    fn fix_call(&mut self, e: &mut Expr) {
        let Expr::Call(c) = e else { return };
        let Expr::Path(p) = &*c.func else { return };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.len();
        if n == 1 {
            if let Some(cl) = self.closures.get(&segs[0]).cloned() {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                self.used_closures.insert(segs[0].clone());
                *e = self.apply(&Expr::Closure(cl), args, false);
                return;
            }
        }
        if n >= 2 {
            let a = segs[n - 2].as_str();
            let b = segs[n - 1].as_str();
            let r = match (a, b) {
                ("String", "from_iter") => Some("string_from_iter"),
                ("String", "from") => Some("string_from"),
                ("String", "with_capacity") => Some("string_with_capacity"),
                ("Vec", "with_capacity") => Some("vec_with_capacity"),
                ("u32", "from_str") => Some("u32_from_str"),
                ("u16", "from_str") => Some("u16_from_str"),
                ("isize", "from_str") => Some("isize_from_str"),
                ("u32", "from_str_radix") => Some("u32_from_str_radix"),
                ("u16", "from_str_radix") => Some("u16_from_str_radix"),
                ("isize", "from_str_radix") => Some("isize_from_str_radix"),
                ("mem", "swap") => Some("mem_swap"),
                ("mem", "replace") => Some("mem_replace"),
                ("mem", "take") => Some("mem_take"),
                _ => None,
            };
            if let Some(r) = r {
                let id = format_ident!("{}", r);
                c.func = Box::new(parse_quote!(crate::vf::#id));
            }
        }
    }

    fn fix_method(&mut self, e: &mut Expr) {
        let Expr::MethodCall(m) = e else { return };
        let name = m.method.to_string();
        let argc = m.args.len();
        let r = (*m.receiver).clone();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let rename = |m: &mut ExprMethodCall, to: &str| {
            m.method = Ident::new(to, Span::call_site());
        };
        match (name.as_str(), argc) {
            // --- Option / Result combinators taking functions
            ("map", 1) => {
                let v = self.fresh("v");
                let opt = self.is_option("map", &r);
                let b = self.apply(&args[0], vec![parse_quote!(#v)], false);
                *e = if opt {
                    let r = as_mut_scrutinee(&r, &v);
                    let (s, p) = r;
                    parse_quote!(match #s { #p => Some(#b), None => None })
                } else {
                    let er = self.fresh("e");
                    parse_quote!(match #r { Ok(#v) => Ok(#b), Err(#er) => Err(#er) })
                };
            }
            ("map_err", 1) => {
                let v = self.fresh("v");
                let er = self.fresh("e");
                let b = self.apply(&args[0], vec![parse_quote!(#er)], false);
                *e = parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#er) => Err(#b) });
            }
            ("map_or", 2) => {
                let v = self.fresh("v");
                let b = self.apply(&args[1], vec![parse_quote!(#v)], false);
                let d = &args[0];
                *e = if self.is_option("map_or", &r) {
                    parse_quote!(match #r { Some(#v) => #b, None => #d })
                } else {
                    parse_quote!(match #r { Ok(#v) => #b, Err(_) => #d })
                };
            }
            ("and_then", 1) => {
                let v = self.fresh("v");
                let b = self.apply(&args[0], vec![parse_quote!(#v)], false);
                *e = if self.is_option("and_then", &r) {
                    parse_quote!(match #r { Some(#v) => #b, None => None })
                } else {
                    let er = self.fresh("e");
                    parse_quote!(match #r { Ok(#v) => #b, Err(#er) => Err(#er) })
                };
            }
            ("or_else", 1) => {
                let v = self.fresh("v");
                if self.is_option("or_else", &r) {
                    let b = self.apply(&args[0], vec![], false);
                    *e = parse_quote!(match #r { Some(#v) => Some(#v), None => #b });
                } else {
                    let er = self.fresh("e");
                    let b = self.apply(&args[0], vec![parse_quote!(#er)], false);
                    *e = parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#er) => #b });
                }
            }
            ("unwrap_or_else", 1) => {
                let v = self.fresh("v");
                if self.is_option("unwrap_or_else", &r) {
                    let b = self.apply(&args[0], vec![], false);
                    *e = parse_quote!(match #r { Some(#v) => #v, None => #b });
                } else {
                    let er = self.fresh("e");
                    let b = self.apply(&args[0], vec![parse_quote!(#er)], false);
                    *e = parse_quote!(match #r { Ok(#v) => #v, Err(#er) => #b });
                }
            }
            ("unwrap_or", 1) => {
                let v = self.fresh("v");
                let d = &args[0];
                *e = parse_quote!(match #r { Some(#v) => #v, None => #d });
            }
            ("or", 1) => {
                let v = self.fresh("v");
                let d = &args[0];
                *e = parse_quote!(match #r { Some(#v) => Some(#v), None => #d });
            }
            ("filter", 1) => {
                let v = self.fresh("v");
                let b = self.apply(&args[0], vec![parse_quote!(#v)], true);
                *e = parse_quote!(match #r { Some(#v) => { if #b { Some(#v) } else { None } } None => None });
            }
            ("copied", 0) | ("cloned", 0) => {
                let v = self.fresh("v");
                *e = parse_quote!(match #r { Some(#v) => Some(*#v), None => None });
            }
            ("ok", 0) => {
                let v = self.fresh("v");
                *e = parse_quote!(match #r { Ok(#v) => Some(#v), Err(_) => None });
            }
            ("ok_or", 1) => {
                let v = self.fresh("v");
                let d = &args[0];
                *e = parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#d) });
            }
            ("ok_or_else", 1) => {
                let v = self.fresh("v");
                let b = self.apply(&args[0], vec![], false);
                *e = parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) });
            }
            // --- renamed std methods (trusted stubs with contracts in the prelude)
            ("iter", 0) => rename(m, "vx_iter"),
            ("into_iter", 0) => rename(m, "vx_into_iter"),
            ("to_string", 0) => rename(m, "vx_to_string"),
            ("to_owned", 0) => rename(m, "vx_to_owned"),
            ("starts_with", 1) => rename(m, "vx_starts_with"),
            ("trim_start_matches", 1) => rename(m, "vx_trim_start_matches"),
            ("trim_matches", 1) => rename(m, "vx_trim_matches"),
            ("trim_end_matches", 1) => rename(m, "vx_trim_end_matches"),
            ("contains", 1) => rename(m, "vx_contains"),
            ("to_digit", 1) if matches!(&args[0], Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.base10_digits() == "10")) => {
                *e = parse_quote!(crate::vf::char_to_digit(crate::vf::VxChar::ch(#r), 10));
            }
            ("ends_with", 1) => rename(m, "vx_ends_with"),
            ("strip_prefix", 1) => rename(m, "vx_strip_prefix"),
            ("eq_ignore_ascii_case", 1) => rename(m, "vx_eq_ignore_ascii_case"),
            ("is_whitespace" | "is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_ascii_digit" | "is_ascii" | "is_ascii_uppercase"
             | "is_ascii_lowercase" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii_whitespace" | "is_ascii_hexdigit"
             | "is_ascii_control" | "is_control" | "is_ascii_punctuation" | "is_ascii_graphic" | "len_utf8", 0) => {
                let f = Ident::new(&format!("char_{}", name), Span::call_site());
                *e = parse_quote!(crate::vf::#f(crate::vf::VxChar::ch(#r)));
            }
            ("is_some_and", 1) => {
                let v = self.fresh("v");
                let b = self.apply(&args[0], vec![parse_quote!(#v)], false);
                *e = parse_quote!(match #r { Some(#v) => #b, None => false });
            }
            ("map_or_else", 2) => {
                let v = self.fresh("v");
                let b = self.apply(&args[1], vec![parse_quote!(#v)], false);
                *e = if self.is_option("map_or_else", &r) {
                    let d = self.apply(&args[0], vec![], false);
                    parse_quote!(match #r { Some(#v) => #b, None => #d })
                } else {
                    let er = self.fresh("e");
                    let d = self.apply(&args[0], vec![parse_quote!(#er)], false);
                    parse_quote!(match #r { Ok(#v) => #b, Err(#er) => #d })
                };
            }
            ("is_digit", 1) => {
                let a = &args[0];
                *e = parse_quote!(crate::vf::char_is_digit(#r, #a));
            }
            ("shrink_to_fit", 0) => rename(m, "vx_shrink_to_fit"),
            ("push_str", 1) => rename(m, "vx_push_str"),
            ("reserve", 1) => rename(m, "vx_reserve"),
            ("reverse", 0) => rename(m, "vx_reverse"),
            ("extend", 1) => rename(m, "vx_extend"),
            ("append", 1) => rename(m, "vx_append"),
            ("checked_add" | "saturating_add" | "saturating_sub", 1) => rename(m, &format!("vx_{}", name)),
            ("len", 0) => rename(m, "vx_len"),
            ("as_str", 0) => {}
            _ => {}
        }
    }

    fn fix_let_conds(&mut self, cond: &mut Expr, derefs: &mut Vec<Ident>) {
        match cond {
            Expr::Let(l) => {
                let mut d = vec![];
                fix_pat(&mut l.pat, false, &mut d);
                derefs.extend(d);
            }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
                self.fix_let_conds(&mut b.left, derefs);
                self.fix_let_conds(&mut b.right, derefs);
            }
            Expr::Paren(p) => self.fix_let_conds(&mut p.expr, derefs),
            _ => {}
        }
    }

    fn early(&mut self, e: &mut Expr) -> bool {
        // rewrites done before visiting children
        match e {
            Expr::Try(t) => {
                if let Expr::Call(c) = strip_paren(&t.expr) {
                    if let Expr::Path(p) = &*c.func {
                        if p.path.get_ident().map_or(false, |i| self.closures.contains_key(&i.to_string())) {
                            let mut inner = (*t.expr).clone();
                            self.try_ok = true;
                            self.visit_expr_mut(&mut inner);
                            self.try_ok = false;
                            let v = self.fresh("v");
                            let er = self.fresh("e");
                            *e = parse_quote!(match #inner { Ok(#v) => #v, Err(#er) => return Err(crate::vf::vx_from(#er)) });
                            return true;
                        }
                    }
                }
                // iterator pipeline collected into a Result
                if let Expr::MethodCall(m) = strip_paren(&t.expr) {
                    if m.method == "collect" && m.args.is_empty() {
                        let res = m
                            .turbofish
                            .as_ref()
                            .map_or(false, |tf| tf.to_token_stream().to_string().contains("Result"));
                        if res {
                            let er = self.fresh("e");
                            let v = self.fresh("ok");
                            let r = (*m.receiver).clone();
                            self.try_ok = true;
                            *e = self.run_chain(
                                &r,
                                vec![parse_quote!(let mut __vx_acc = Vec::new();)],
                                parse_quote!(__vx_acc),
                                &mut |_, x| {
                                    parse_quote!(match #x { Ok(#v) => __vx_acc.push(#v), Err(#er) => return Err(crate::vf::vx_from(#er)) })
                                },
                            );
                            self.try_ok = false;
                            return true;
                        }
                    }
                }
                false
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let argc = m.args.len();
                let recv = (*m.receiver).clone();
                let arg = m.args.first().cloned();
                match (name.as_str(), argc) {
                    ("any", 1) | ("all", 1) if self.is_iter_chain(&recv) => {
                        let f = arg.unwrap();
                        let is_any = name == "any";
                        let init: Expr = if is_any { parse_quote!(false) } else { parse_quote!(true) };
                        *e = self.run_chain(
                            &recv,
                            vec![parse_quote!(let mut __vx_acc = #init;)],
                            parse_quote!(__vx_acc),
                            &mut |me, x| {
                                let c = me.apply(&f, vec![x], false);
                                let k = me.fresh("c");
                                if is_any {
                                    parse_quote!({ let #k = #c; if #k { __vx_acc = true; break; } })
                                } else {
                                    parse_quote!({ let #k = #c; if !#k { __vx_acc = false; break; } })
                                }
                            },
                        );
                        true
                    }
                    ("find", 1) if self.is_iter_chain(&recv) => {
                        let f = arg.unwrap();
                        *e = self.run_chain(
                            &recv,
                            vec![parse_quote!(let mut __vx_acc = None;)],
                            parse_quote!(__vx_acc),
                            &mut |me, x| {
                                let c = me.apply(&f, vec![x.clone()], true);
                                let k = me.fresh("c");
                                parse_quote!({ let #k = #c; if #k { __vx_acc = Some(#x); break; } })
                            },
                        );
                        true
                    }
                    ("position", 1) if self.is_iter_chain(&recv) => {
                        self.errors.push("position".into());
                        true
                    }
                    ("fold", 2) if self.is_iter_chain(&recv) => {
                        let f = m.args[1].clone();
                        let mut init = m.args[0].clone();
                        self.visit_expr_mut(&mut init);
                        *e = self.run_chain(
                            &recv,
                            vec![parse_quote!(let mut __vx_acc = #init;)],
                            parse_quote!(__vx_acc),
                            &mut |me, x| {
                                let c = me.apply(&f, vec![parse_quote!(__vx_acc), x], false);
                                parse_quote!(__vx_acc = #c)
                            },
                        );
                        true
                    }
                    ("count", 0) if matches!(strip_paren(&recv), Expr::MethodCall(c) if c.method == "chars" && c.args.is_empty()) => {
                        let Expr::MethodCall(c) = strip_paren(&recv) else { unreachable!() };
                        let mut s = (*c.receiver).clone();
                        self.visit_expr_mut(&mut s);
                        *e = parse_quote!(crate::vf::vx_char_count(&#s));
                        true
                    }
                    ("count", 0) if self.is_iter_chain(&recv) => {
                        *e = self.run_chain(
                            &recv,
                            vec![parse_quote!(let mut __vx_acc = 0usize;)],
                            parse_quote!(__vx_acc),
                            &mut |_, _| parse_quote!(__vx_acc = __vx_acc + 1),
                        );
                        true
                    }
                    ("sum", 0) if self.is_iter_chain(&recv) => {
                        *e = self.run_chain(
                            &recv,
                            vec![parse_quote!(let mut __vx_acc = 0usize;)],
                            parse_quote!(__vx_acc),
                            &mut |_, x| parse_quote!(__vx_acc = __vx_acc + #x),
                        );
                        true
                    }
                    ("collect", 0) => {
                        let tf = m
                            .turbofish
                            .as_ref()
                            .map_or(String::new(), |tf| tf.to_token_stream().to_string());
                        if tf.contains("Result") || tf.contains("String") {
                            self.errors.push("collect into Result/String".into());
                            return true;
                        }
                        *e = self.run_chain(
                            &recv,
                            vec![parse_quote!(let mut __vx_acc = Vec::new();)],
                            parse_quote!(__vx_acc),
                            &mut |_, x| parse_quote!(__vx_acc.push(#x)),
                        );
                        true
                    }
                    ("extend", 1) if self.is_iter_chain(arg.as_ref().unwrap()) => {
                        let mut r = recv.clone();
                        self.visit_expr_mut(&mut r);
                        let a = arg.unwrap();
                        *e = self.run_chain(&a, vec![], parse_quote!(()), &mut |_, x| {
                            parse_quote!(#r.vx_ext1(#x))
                        });
                        true
                    }
                    _ => false,
                }
            }
            Expr::Call(_) => {
                // calls of local closures
                if let Expr::Call(c) = e {
                    if let Expr::Path(p) = &*c.func {
                        if let Some(i) = p.path.get_ident() {
                            if self.closures.contains_key(&i.to_string()) {
                                let saved = std::mem::replace(&mut self.try_ok, false);
                                for a in c.args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                self.try_ok = saved;
                                self.fix_call(e);
                                return true;
                            }
                        }
                    }
                }
                false
            }
            Expr::ForLoop(f) => {
                let mut pat = (*f.pat).clone();
                let mut d = vec![];
                let label = f.label.clone();
                let mut body = f.body.clone();
                let was_wild = matches!(pat, Pat::Wild(_));
                if let Expr::Range(r) = strip_paren(&f.expr) {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let (mut a, mut b) = ((**a).clone(), (**b).clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        self.visit_block_mut(&mut body);
                        let i = self.fresh("i");
                        let n = self.fresh("n");
                        let stmts = &body.stmts;
                        let bind: Option<Stmt> =
                            if was_wild { None } else { Some(parse_quote!(let #pat = #i;)) };
                        *e = parse_quote!({ let mut #i = #a; let #n = #b; #label loop { if #i < #n { #bind #i = #i + 1; #(#stmts)* } else { break; } } });
                        return true;
                    }
                }
                // `for x in CHAIN`
                let chain = (*f.expr).clone();
                let (src, ads) = self.chain(&chain);
                if !ads.is_empty() {
                    self.errors.push("for over an adapted iterator".into());
                }
                let it = self.fresh("it");
                fix_pat(&mut pat, false, &mut d);
                self.visit_block_mut(&mut body);
                let body_e = prefix_derefs(parse_quote!(#body), &dedup(d));
                let init: Expr = match src {
                    Source::Iter(mut x) => {
                        self.visit_expr_mut(&mut x);
                        parse_quote!((#x).vx_iter())
                    }
                    Source::IntoIter(mut x) | Source::Other(mut x) => {
                        self.visit_expr_mut(&mut x);
                        parse_quote!((#x).vx_into_iter())
                    }
                    Source::Chars(mut x) => {
                        self.visit_expr_mut(&mut x);
                        parse_quote!(crate::vf::vx_chars(&#x))
                    }
                    Source::ByRef(x) => {
                        self.errors.push("for over by_ref".into());
                        x
                    }
                };
                *e = parse_quote!({ let mut #it = #init; #label loop { match #it.next() { Some(#pat) => #body_e None => { break; } } } });
                true
            }
            Expr::While(w) => {
                let label = w.label.clone();
                let mut cond = (*w.cond).clone();
                let mut d = vec![];
                self.fix_let_conds(&mut cond, &mut d);
                self.visit_expr_mut(&mut cond);
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let body_e = prefix_derefs(parse_quote!(#body), &dedup(d));
                *e = parse_quote!(#label loop { if #cond #body_e else { break; } });
                true
            }
            _ => false,
        }
    }
}

fn as_mut_scrutinee(r: &Expr, v: &Ident) -> (Expr, Pat) {
    if let Expr::MethodCall(m) = strip_paren(r) {
        if m.method == "as_mut" && m.args.is_empty() {
            let x = (*m.receiver).clone();
            return (x, wrap_some(v, true));
        }
    }
    (r.clone(), wrap_some(v, false))
}
fn wrap_some(v: &Ident, by_mut: bool) -> Pat {
    let p = Pat::Ident(PatIdent {
        attrs: vec![],
        by_ref: if by_mut { Some(Default::default()) } else { None },
        mutability: if by_mut { Some(Default::default()) } else { None },
        ident: v.clone(),
        subpat: None,
    });
    let mut elems = punctuated::Punctuated::new();
    elems.push(p);
    Pat::TupleStruct(PatTupleStruct {
        attrs: vec![],
        qself: None,
        path: parse_quote!(Some),
        paren_token: Default::default(),
        elems,
    })
}

struct HasReturn(bool, bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.1 = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}
pub fn has_return(e: &Expr) -> (bool, bool) {
    let mut h = HasReturn(false, false);
    h.visit_expr(e);
    (h.0, h.1)
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut d = vec![];
        fix_pat(&mut a.pat, false, &mut d);
        let d = dedup(d);
        if let Some((_, g)) = &mut a.guard {
            for x in &d {
                SubstIdent { from: x.to_string(), to: parse_quote!((*#x)) }.visit_expr_mut(g);
            }
        }
        visit_mut::visit_arm_mut(self, a);
        a.body = Box::new(prefix_derefs((*a.body).clone(), &d));
        if !matches!(&*a.body, Expr::Block(_)) && a.comma.is_none() {
            a.comma = Some(Default::default());
        }
    }

    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let mut d = vec![];
        self.fix_let_conds(&mut i.cond, &mut d);
        visit_mut::visit_expr_if_mut(self, i);
        let d = dedup(d);
        if !d.is_empty() {
            let b = i.then_branch.clone();
            if let Expr::Block(b) = prefix_derefs(parse_quote!(#b), &d) {
                i.then_branch = b.block;
            }
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        let mut d = vec![];
        fix_pat(&mut l.pat, false, &mut d);
        if !d.is_empty() {
            self.errors.push("reference pattern in let".into());
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_closure_mut(&mut self, _c: &mut ExprClosure) {
        // closures are only ever inlined; their bodies are desugared at the point of use
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.early(e) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) => {
                // `A | B if g => e` is `A if g => e, B if g => e`
                let mut arms = Vec::new();
                for a in m.arms.drain(..) {
                    match &a.pat {
                        Pat::Or(o) if a.guard.is_some() => {
                            for c in &o.cases {
                                let mut n = a.clone();
                                n.pat = c.clone();
                                n.comma = Some(Default::default());
                                arms.push(n);
                            }
                        }
                        _ => arms.push(a),
                    }
                }
                m.arms = arms;
            }
            Expr::Try(t) => {
                let inner = &t.expr;
                let v = self.fresh("v");
                *e = if self.ret_is_option {
                    parse_quote!(match #inner { Some(#v) => #v, None => return None })
                } else {
                    let er = self.fresh("e");
                    parse_quote!(match #inner { Ok(#v) => #v, Err(#er) => return Err(crate::vf::vx_from(#er)) })
                };
            }
            Expr::Call(_) => self.fix_call(e),
            Expr::MethodCall(_) => self.fix_method(e),
            Expr::Binary(b) => {
                if let BinOp::BitOrAssign(_) = b.op {
                    let t = self.fresh("b");
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!({ let #t = #r; if #t { #l = true; } });
                } else if let BinOp::BitAndAssign(_) = b.op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = crate::vf::vf_and(#l, #r));
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        if let (Some(a), None) = (&rg.start, &rg.end) {
                            let x = &ix.expr;
                            *e = parse_quote!(crate::vf::vx_str_from(#x, #a));
                        }
                    }
                }
            }
            Expr::Let(_) => {}
            _ => {}
        }
    }
}

/// Collects `let name = |..| ..;` closures of a body (removed and inlined at their uses).
pub fn collect_closures(b: &mut Block, out: &mut BTreeMap<String, ExprClosure>) {
    struct V<'x>(&'x mut BTreeMap<String, ExprClosure>);
    impl<'x> VisitMut for V<'x> {
        fn visit_item_mut(&mut self, _: &mut Item) {}
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut keep = vec![];
            for s in b.stmts.drain(..) {
                if let Stmt::Local(l) = &s {
                    let id = match &l.pat {
                        Pat::Ident(i) => Some(i.ident.to_string()),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(i) => Some(i.ident.to_string()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let (Some(id), Some(init)) = (id, &l.init) {
                        if let Expr::Closure(c) = strip_paren(&init.expr) {
                            self.0.insert(id, c.clone());
                            continue;
                        }
                    }
                }
                keep.push(s);
            }
            b.stmts = keep;
        }
    }
    V(out).visit_block_mut(b);
}

// ------------------------------------------------------------------------------------------
// Drop elaboration for `Multipeek`

/// A value created by `.multipeek()` has a `Drop` impl which pushes everything back.  Verus has
/// no drop glue, so the call is made explicit at every exit of the variable's scope, exactly
/// where rustc would insert it.
pub struct DropElab {
    pub errors: Vec<String>,
    tmp: usize,
}

#[derive(Clone)]
struct DropVar {
    id: Ident,
}

impl DropElab {
    pub fn new() -> Self {
        DropElab { errors: vec![], tmp: 0 }
    }

    fn creates(e: &Expr) -> bool {
        matches!(strip_paren(e), Expr::MethodCall(m) if m.method == "multipeek")
    }

    pub fn run_fn(&mut self, b: &mut Block) {
        // temporaries: `X.multipeek().peek_next()` used directly
        self.temps(b);
        self.block(b);
    }

    fn temps(&mut self, b: &mut Block) {
        struct T<'x>(&'x mut usize);
        impl<'x> VisitMut for T<'x> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                // `match X.multipeek().peek_next() { Some(v) => v, None => return None }` whose
                // value is discarded
                if let Expr::Match(m) = e {
                    if let Expr::MethodCall(mc) = strip_paren(&m.expr) {
                        if mc.method == "peek_next" && DropElab::creates(&mc.receiver) {
                            *self.0 += 1;
                            let id = format_ident!("__vx_mp{}", *self.0);
                            let ok = format_ident!("__vx_mpok{}", *self.0);
                            let recv = &mc.receiver;
                            *e = parse_quote!({
                                let mut #id = #recv;
                                let #ok = #id.peek_next().is_some();
                                #id.vx_drop();
                                if !#ok { return None; }
                            });
                        }
                    }
                }
            }
        }
        T(&mut self.tmp).visit_block_mut(b);
    }

    fn block(&mut self, b: &mut Block) {
        // find a let of a multipeek in this block
        let mut i = 0;
        while i < b.stmts.len() {
            let mut var = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if Self::creates(&init.expr) {
                        var = Some(DropVar { id: p.ident.clone() });
                    }
                }
            }
            match var {
                None => {
                    self.stmt(&mut b.stmts[i]);
                    i += 1;
                }
                Some(v) if !v.id.to_string().starts_with("__vx_mp") => {
                    let mut rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                    for s in rest.iter_mut() {
                        self.stmt(s);
                        let mut ins = InsertDrop { v: v.clone(), depth: 0, labels: vec![] };
                        ins.visit_stmt_mut(s);
                    }
                    let id = &v.id;
                    let tail = match rest.last() {
                        Some(Stmt::Expr(_, None)) => rest.pop(),
                        _ => None,
                    };
                    b.stmts.extend(rest);
                    match tail {
                        Some(Stmt::Expr(t, None)) => {
                            if diverges(&t) {
                                b.stmts.push(Stmt::Expr(t, None));
                            } else {
                                self.tmp += 1;
                                let r = format_ident!("__vx_r{}", self.tmp);
                                b.stmts.push(parse_quote!(let #r = #t;));
                                b.stmts.push(parse_quote!(#id.vx_drop();));
                                b.stmts.push(Stmt::Expr(parse_quote!(#r), None));
                            }
                        }
                        _ => {
                            let div = matches!(b.stmts.last(), Some(Stmt::Expr(e, Some(_))) if diverges(e));
                            if !div {
                                b.stmts.push(parse_quote!(#id.vx_drop();));
                            }
                        }
                    }
                    return;
                }
                Some(_) => {
                    i += 1;
                }
            }
        }
    }

    fn stmt(&mut self, s: &mut Stmt) {
        struct B<'x>(&'x mut DropElab);
        impl<'x> VisitMut for B<'x> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                self.0.block(b);
            }
            fn visit_item_mut(&mut self, _: &mut Item) {}
        }
        B(self).visit_stmt_mut(s);
    }
}

fn diverges(e: &Expr) -> bool {
    matches!(strip_paren(e), Expr::Return(_) | Expr::Break(_) | Expr::Continue(_))
}

// A guard in a `match` makes the verifier lose track of a `&mut` parameter being done with at the
// returns in the arms that follow; said explicitly there. (A parameter that is a mutable reference is
// always done with when the function returns something that holds no reference.)
struct Resolved {
    refs: Vec<Ident>,
    active: bool,
}
impl VisitMut for Resolved {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        self.visit_expr_mut(&mut m.expr);
        let was = self.active;
        for a in &mut m.arms {
            if a.guard.is_some() {
                self.active = true;
            }
            self.visit_expr_mut(&mut a.body);
        }
        self.active = was;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let (true, Expr::Return(r)) = (self.active, &*e) {
            let refs = &self.refs;
            *e = match r.expr.clone() {
                Some(v) => parse_quote!({ let __vx_ret = #v; #(assume(has_resolved(#refs));)* return __vx_ret; }),
                None => parse_quote!({ #(assume(has_resolved(#refs));)* return; }),
            };
        }
    }
}
pub fn resolve_after_guards(sig: &Signature, b: &mut Block) {
    fn holds_ref(ts: proc_macro2::TokenStream) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Punct(p) => p.as_char() == '&' || p.as_char() == '\'',
            proc_macro2::TokenTree::Group(g) => holds_ref(g.stream()),
            _ => false,
        })
    }
    if holds_ref(sig.output.to_token_stream()) && !matches!(&sig.output, ReturnType::Default) {
        return;
    }
    let mut refs = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some() => refs.push(format_ident!("self")),
            FnArg::Typed(t) => {
                if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) {
                    if r.mutability.is_some() {
                        refs.push(i.ident.clone());
                    }
                }
            }
            _ => {}
        }
    }
    if !refs.is_empty() {
        Resolved { refs, active: false }.visit_block_mut(b);
    }
}

struct InsertDrop {
    v: DropVar,
    depth: usize,
    labels: Vec<String>,
}

impl InsertDrop {
    fn exits(&self, label: &Option<Lifetime>) -> bool {
        match label {
            None => self.depth == 0,
            Some(l) => !self.labels.contains(&l.ident.to_string()),
        }
    }
}

impl VisitMut for InsertDrop {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        self.depth += 1;
        let lb = l.label.as_ref().map(|x| x.name.ident.to_string());
        if let Some(x) = &lb {
            self.labels.push(x.clone());
        }
        visit_mut::visit_expr_loop_mut(self, l);
        if lb.is_some() {
            self.labels.pop();
        }
        self.depth -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let id = &self.v.id;
        match e {
            Expr::Return(r) => {
                let val = r.expr.clone();
                *e = match val {
                    Some(v) if !matches!(strip_paren(&v), Expr::Path(_)) => {
                        parse_quote!({ let __vx_ret = #v; #id.vx_drop(); return __vx_ret; })
                    }
                    Some(v) => parse_quote!({ #id.vx_drop(); return #v; }),
                    None => parse_quote!({ #id.vx_drop(); return; }),
                };
            }
            Expr::Break(b) if self.exits(&b.label) => {
                let b2 = b.clone();
                *e = parse_quote!({ #id.vx_drop(); #b2; });
            }
            Expr::Continue(c) if self.exits(&c.label) => {
                let c2 = c.clone();
                *e = parse_quote!({ #id.vx_drop(); #c2; });
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------------------
// Loop numbering and anchors

pub struct Anchors<'a> {
    pub key: String,
    pub contract: Option<&'a FnContract>,
    pub n: usize,
    pub used_anchors: BTreeSet<String>,
    pub calls: std::collections::BTreeMap<String, usize>,
}

pub fn spec_marker(k: &str) -> Stmt {
    parse_quote!(__vx_spec!(#k);)
}
pub fn proof_marker(k: &str) -> Stmt {
    parse_quote!(__vx_proof!(#k);)
}

impl<'a> Anchors<'a> {
    fn wants_calls(&self) -> bool {
        self.contract.map_or(false, |c| {
            c.proofs.iter().any(|p| p.anchor.starts_with("before-call") || p.anchor.starts_with("after-call"))
        })
    }
    fn has(&self, a: &str) -> bool {
        self.contract.map_or(false, |c| c.proofs.iter().any(|p| p.anchor == a))
    }
    fn mark(&mut self, a: &str) -> Option<Stmt> {
        if self.has(a) {
            self.used_anchors.insert(a.to_string());
            Some(proof_marker(&format!("{}|{}", self.key, a)))
        } else {
            None
        }
    }
    pub fn run(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
        if let Some(m) = self.mark("start") {
            b.stmts.insert(0, m);
        }
        if self.has("end") {
            let m = self.mark("end").unwrap();
            match b.stmts.last() {
                Some(Stmt::Expr(e, None)) => {
                    let e = e.clone();
                    b.stmts.pop();
                    b.stmts.push(parse_quote!(let __vx_out = #e;));
                    b.stmts.push(m);
                    b.stmts.push(Stmt::Expr(parse_quote!(__vx_out), None));
                }
                _ => b.stmts.push(m),
            }
        }
    }
}

impl<'a> VisitMut for Anchors<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() {
                *self.calls.entry(s.ident.to_string()).or_insert(0) += 1;
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_method_call_mut(&mut self, c: &mut ExprMethodCall) {
        // receivers run first
        let nm = c.method.to_string();
        visit_mut::visit_expr_method_call_mut(self, c);
        *self.calls.entry(nm).or_insert(0) += 1;
    }
    fn visit_expr_break_mut(&mut self, b: &mut ExprBreak) {
        visit_mut::visit_expr_break_mut(self, b);
        *self.calls.entry("break".into()).or_insert(0) += 1;
    }
    fn visit_expr_return_mut(&mut self, b: &mut ExprReturn) {
        visit_mut::visit_expr_return_mut(self, b);
        *self.calls.entry("return".into()).or_insert(0) += 1;
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        // give value-less arms a block so that anchors inside them have a statement to attach to
        for a in &mut m.arms {
            if matches!(&*a.body, Expr::Break(_) | Expr::Return(_) | Expr::Call(_) | Expr::MethodCall(_)) && self.wants_calls() {
                let e = a.body.clone();
                a.body = Box::new(parse_quote!({ #e }));
            }
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        self.n += 1;
        let n = self.n;
        visit_mut::visit_expr_loop_mut(self, l);
        let mut pre: Vec<Stmt> = vec![spec_marker(&format!("{}#{}", self.key, n))];
        if let Some(m) = self.mark(&format!("loop{}.start", n)) {
            pre.push(m);
        }
        let mut post = vec![];
        if let Some(m) = self.mark(&format!("loop{}.end", n)) {
            post.push(m);
        }
        pre.extend(l.body.stmts.drain(..));
        if !post.is_empty() {
            // a trailing value-less expression needs a semicolon
            if let Some(Stmt::Expr(_, semi)) = pre.last_mut() {
                *semi = Some(Default::default());
            }
        }
        pre.extend(post);
        l.body.stmts = pre;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let stmts: Vec<Stmt> = b.stmts.drain(..).collect();
        let total = stmts.len();
        for (ix, mut s) in stmts.into_iter().enumerate() {
            let n0 = self.n;
            let first = n0 + 1;
            let calls0 = self.calls.clone();
            self.visit_stmt_mut(&mut s);
            let mut after_calls = vec![];
            for (nm, k1) in self.calls.clone() {
                let k0 = calls0.get(&nm).copied().unwrap_or(0);
                for k in k0 + 1..=k1 {
                    if let Some(m) = self.mark_once(&format!("before-call {}#{}", nm, k)) {
                        out.push(m);
                    }
                    if let Some(m) = self.mark_once(&format!("after-call {}#{}", nm, k)) {
                        after_calls.push(m);
                    }
                }
            }
            // before:loopN / after:loopN attach to the innermost statement holding the loop
            if self.n > n0 {
                if let Some(m) = self.mark_once(&format!("before:loop{}", first)) {
                    out.push(m);
                }
            }
            let mut name = None;
            if let Stmt::Local(l) = &s {
                let mut p = &l.pat;
                if let Pat::Type(t) = p {
                    p = &t.pat;
                }
                if let Pat::Ident(i) = p {
                    name = Some(i.ident.to_string());
                }
                if let Pat::Tuple(t) = p {
                    if let Some(Pat::Ident(i)) = t.elems.first() {
                        name = Some(i.ident.to_string());
                    }
                }
            }
            if let Some(nm) = &name {
                if let Some(m) = self.mark_once(&format!("before-let {}", nm)) {
                    out.push(m);
                }
            }
            let is_tail = ix + 1 == total && matches!(s, Stmt::Expr(_, None));
            let mut after: Vec<Stmt> = vec![];
            if self.n > n0 {
                after.extend(self.mark_once(&format!("after:loop{}", first)));
            }
            after.extend(after_calls);
            if !after.is_empty() && is_tail {
                if let Stmt::Expr(e, _) = s {
                    out.push(parse_quote!(let __vx_tail = #e;));
                    out.extend(after);
                    out.push(Stmt::Expr(parse_quote!(__vx_tail), None));
                }
                continue;
            }
            out.push(s);
            out.extend(after);
            if let Some(nm) = &name {
                if let Some(m) = self.mark_once(&format!("after-let {}", nm)) {
                    out.push(m);
                }
            }
        }
        b.stmts = out;
    }
}

impl<'a> Anchors<'a> {
    fn mark_once(&mut self, a: &str) -> Option<Stmt> {
        if self.used_anchors.contains(a) {
            return None;
        }
        self.mark(a)
    }
}

pub fn count_loops(b: &Block) -> usize {
    struct V(usize);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
            self.0 += 1;
            syn::visit::visit_expr_loop(self, l);
        }
        fn visit_item(&mut self, _: &'ast Item) {}
    }
    let mut v = V(0);
    v.visit_block(b);
    v.0
}

#[allow(dead_code)]
pub fn tokens(e: &impl ToTokens) -> String {
    quote!(#e).to_string()
}
#[allow(dead_code)]
pub fn _lm(e: &Expr) -> Option<String> {
    last_method(e)
}
