//! Token level printer with line tracking.
use crate::contracts::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use serde_json::{json, Value};

pub struct Printer<'a> {
    pub out: String,
    pub line: usize,
    pub indent: usize,
    bol: bool,
    pub contracts: &'a Contracts,
    pub prop: Option<String>,
    pub clause_map: Vec<Value>,
    pub errors: Vec<String>,
}

/// Whether a clause is printed. Tags only say which property a clause states; every clause takes part in
/// every run (the properties select which functions are verified).
pub fn selected(_tags: &[String], _prop: &Option<String>) -> bool {
    true
}

impl<'a> Printer<'a> {
    pub fn new(contracts: &'a Contracts, prop: Option<String>) -> Self {
        Printer {
            out: String::new(),
            line: 1,
            indent: 0,
            bol: true,
            contracts,
            prop,
            clause_map: vec![],
            errors: vec![],
        }
    }
    pub fn raw(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
        self.bol = s.ends_with('\n');
    }
    pub fn nl(&mut self) {
        if !self.bol {
            self.raw("\n");
        }
    }
    fn word(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.bol = false;
        }
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    pub fn clauses(&mut self, key: &str, what: &str, cl: &[Clause]) {
        self.nl();
        let mut last = String::new();
        // the verifier wants its clauses in this order
        let rank = |k: &str| match k {
            "requires" => 0, "invariant_except_break" => 1, "invariant" => 2, "ensures" => 3,
            "returns" => 4, "decreases" => 5, _ => 6,
        };
        let mut sorted: Vec<&Clause> = cl.iter().collect();
        sorted.sort_by_key(|c| rank(&c.kind));
        for c in sorted {
            if c.text.trim().is_empty() || !selected(&c.tags, &self.prop) {
                continue;
            }
            if c.kind != last {
                self.raw(&format!("    {}\n", c.kind));
                last = c.kind.clone();
            }
            let start = self.line;
            let t = c.text.trim().trim_end_matches(',').to_string();
            self.raw(&format!("        {}\n        ,\n", t));
            self.clause_map.push(json!({"start": start, "end": self.line, "fn": key, "where": what,
                "kind": c.kind, "tags": c.tags, "text": t, "file": c.file, "line": c.line}));
        }
    }
    pub fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // 'label: loop { .. } to be checked on its own
            if i + 4 < v.len() {
                if let (TokenTree::Punct(q), TokenTree::Ident(l), TokenTree::Punct(c), TokenTree::Ident(id), TokenTree::Group(g)) =
                    (&v[i], &v[i + 1], &v[i + 2], &v[i + 3], &v[i + 4])
                {
                    if q.as_char() == '\'' && c.as_char() == ':' && id == "loop" && g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let Some(k) = marker(&inner, "__vx_spec") {
                            self.isolation(&k);
                            self.word(&format!("'{} : loop ", l));
                            self.loop_spec(&k);
                            self.group_braces(inner[4..].iter().cloned().collect());
                            i += 5;
                            continue;
                        }
                    }
                }
            }
            // loop { __vx_spec!("..."); .. }
            if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
                if id == "loop" && g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let Some(k) = marker(&inner, "__vx_spec") {
                        self.isolation(&k);
                        self.word("loop ");
                        self.loop_spec(&k);
                        self.group_braces(inner[4..].iter().cloned().collect());
                        i += 2;
                        continue;
                    }
                }
            }
            if let Some(k) = marker(&v[i..], "__vx_proof") {
                self.proof(&k);
                i += 4;
                continue;
            }
            // __vx_reveal!("..")
            if let (TokenTree::Ident(id), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
                if id == "__vx_reveal" && b.as_char() == '!' {
                    self.word(&format!("proof {{ reveal_strlit({}); }}", g.stream()));
                    i += 3;
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Ident(id) => {
                    self.word(&id.to_string());
                    self.word(" ");
                }
                TokenTree::Literal(l) => {
                    self.word(&l.to_string());
                    self.word(" ");
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.word(&c.to_string());
                    if c == ';' {
                        self.raw("\n");
                    } else if p.spacing() == Spacing::Alone {
                        self.word(" ");
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => self.group_braces(g.stream()),
                    Delimiter::Parenthesis => {
                        self.word("(");
                        self.tokens(g.stream());
                        self.word(") ");
                    }
                    Delimiter::Bracket => {
                        self.word("[");
                        self.tokens(g.stream());
                        self.word("] ");
                    }
                    Delimiter::None => self.tokens(g.stream()),
                },
            }
            i += 1;
        }
    }
    fn group_braces(&mut self, ts: TokenStream) {
        self.word("{");
        self.raw("\n");
        self.indent += 1;
        self.tokens(ts);
        self.indent -= 1;
        self.nl();
        self.word("} ");
        // keep blocks on separate lines for readable diagnostics
        self.raw("\n");
    }
    /// A loop whose body is checked knowing its invariants alone.
    fn isolation(&mut self, k: &str) {
        let mut it = k.rsplitn(2, '#');
        let n: usize = it.next().unwrap().parse().unwrap();
        let key = it.next().unwrap();
        let is = |l: &Section| l.clauses.iter().any(|c| c.kind == "isolate");
        let Some(f) = self.contracts.fns.get(key) else { return };
        if !f.loops.values().any(is) {
            return;
        }
        self.nl();
        if f.loops.get(&n).map_or(false, is) {
            self.raw("#[verifier::loop_isolation(true)]\n");
        } else {
            self.raw("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
        }
    }
    fn loop_spec(&mut self, k: &str) {
        let mut it = k.rsplitn(2, '#');
        let n: usize = it.next().unwrap().parse().unwrap();
        let key = it.next().unwrap();
        let c = self.contracts;
        if let Some(f) = c.fns.get(key) {
            if let Some(l) = f.loops.get(&n) {
                let cl = l.clauses.clone();
                self.clauses(key, &format!("loop {}", n), &cl);
            }
        }
    }
    fn proof(&mut self, k: &str) {
        let mut it = k.splitn(2, '|');
        let key = it.next().unwrap();
        let anchor = it.next().unwrap();
        let c = self.contracts;
        self.nl();
        if let Some(f) = c.fns.get(key) {
            for p in f.proofs.iter().filter(|p| p.anchor == anchor) {
                if selected(&p.tags, &self.prop) {
                    let start = self.line;
                    self.raw(&p.text);
                    self.nl();
                    self.clause_map.push(json!({"start": start, "end": self.line, "fn": key,
                        "where": anchor, "kind": "proof", "tags": p.tags, "text": p.text.trim()}));
                }
            }
        }
    }
}

fn marker(v: &[TokenTree], name: &str) -> Option<String> {
    if v.len() < 4 {
        return None;
    }
    match (&v[0], &v[1], &v[2], &v[3]) {
        (TokenTree::Ident(i), TokenTree::Punct(b), TokenTree::Group(g), TokenTree::Punct(s))
            if i == name && b.as_char() == '!' && s.as_char() == ';' =>
        {
            let l = g.stream().into_iter().next()?.to_string();
            Some(l.trim_matches('"').to_string())
        }
        _ => None,
    }
}
