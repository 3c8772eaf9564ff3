//! Parsing of the contract files (`contracts/*.vc`).
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Clause {
    pub kind: String, // requires / ensures / invariant / invariant_except_break / decreases / opens / ...
    pub tags: Vec<String>,
    pub text: String,
    pub file: String,
    pub line: usize,
}

#[derive(Debug, Clone, Default)]
pub struct Section {
    pub clauses: Vec<Clause>,
}

#[derive(Debug, Clone, Default)]
pub struct Proof {
    pub anchor: String,
    pub tags: Vec<String>,
    pub text: String,
}

#[derive(Debug, Clone, Default)]
pub struct FnContract {
    pub key: String,
    pub ret: Option<String>,
    pub props: Vec<String>,
    pub attrs: Vec<String>,
    pub external: Option<String>, // reason: trusted body
    pub nloops: Option<usize>,
    pub spec: Section,
    pub loops: BTreeMap<usize, Section>,
    pub proofs: Vec<Proof>,
    pub hints: BTreeMap<String, String>,
    pub closures: BTreeMap<String, String>,
    pub sig: Option<String>,
}

#[derive(Debug, Clone, Default)]
pub struct Raw {
    pub key: String,
    pub tags: Vec<String>,
    pub text: String,
}

#[derive(Debug, Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub mods: Vec<Raw>,   // @mod path : raw verus text placed at the start of the module
    pub impls: Vec<Raw>,  // @impl key : raw text at the start of the impl/trait body
    pub drops: Vec<String>,
    pub bounds: BTreeMap<String, String>,
    pub ignore: Vec<String>,
    pub fingerprints: BTreeMap<String, String>,
}

fn parse_tags(s: &str) -> (Vec<String>, &str) {
    let t = s.trim_start();
    if t.starts_with('[') {
        if let Some(e) = t.find(']') {
            let inside = &t[1..e];
            let toks: Vec<String> = inside.split(|c| c == ',' || c == ' ').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
            if toks
                .iter()
                .all(|x| x.len() == 3 && x.starts_with('C') && x[1..].chars().all(|c| c.is_ascii_digit()))
            {
                return (toks, &t[e + 1..]);
            }
        }
    }
    (vec![], s)
}

const CLAUSE_KW: &[&str] = &[
    "requires", "ensures", "invariant", "invariant_except_break", "decreases", "no_unwind",
    "returns", "isolate",
];

pub fn load(files: &[String]) -> Contracts {
    let mut c = Contracts::default();
    for f in files {
        let txt = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
        parse(&txt, f, &mut c);
    }
    c
}

enum Ctx {
    None,
    Fn(String),
    Loop(String, usize),
    Proof(String),
    Mod,
    Impl,
}

fn parse(txt: &str, file: &str, c: &mut Contracts) {
    let mut ctx = Ctx::None;
    let mut kind = String::new();
    for (i, line) in txt.lines().enumerate() {
        let ln = i + 1;
        if line.trim_start().starts_with("//@") || line.trim_start().starts_with("###") {
            continue; // comment of the contract language
        }
        if let Some(rest) = line.strip_prefix('@') {
            let mut it = rest.splitn(2, char::is_whitespace);
            let cmd = it.next().unwrap();
            let arg = it.next().unwrap_or("").trim().to_string();
            kind.clear();
            match cmd {
                "fn" => {
                    let e = c.fns.entry(arg.clone()).or_default();
                    e.key = arg.clone();
                    ctx = Ctx::Fn(arg);
                }
                "loop" => {
                    let k = match &ctx {
                        Ctx::Fn(k) | Ctx::Loop(k, _) | Ctx::Proof(k) => k.clone(),
                        _ => panic!("{}:{}: @loop outside fn", file, ln),
                    };
                    let n: usize = arg.parse().expect("loop number");
                    c.fns.get_mut(&k).unwrap().loops.entry(n).or_default();
                    ctx = Ctx::Loop(k, n);
                }
                "proof" => {
                    let k = match &ctx {
                        Ctx::Fn(k) | Ctx::Loop(k, _) | Ctx::Proof(k) => k.clone(),
                        _ => panic!("{}:{}: @proof outside fn", file, ln),
                    };
                    let (tags, rest) = parse_tags(&arg);
                    let mut anchor = rest.trim().to_string();
                    if (anchor.starts_with("before-call ") || anchor.starts_with("after-call ")) && !anchor.contains('#') {
                        anchor.push_str("#1");
                    }
                    c.fns.get_mut(&k).unwrap().proofs.push(Proof {
                        anchor,
                        tags,
                        text: String::new(),
                    });
                    ctx = Ctx::Proof(k);
                }
                "mod" => {
                    let (tags, rest) = parse_tags(&arg);
                    c.mods.push(Raw { key: rest.trim().to_string(), tags, text: String::new() });
                    ctx = Ctx::Mod;
                }
                "impl" | "trait" => {
                    let (tags, rest) = parse_tags(&arg);
                    c.impls.push(Raw { key: rest.trim().to_string(), tags, text: String::new() });
                    ctx = Ctx::Impl;
                }
                "drop" => {
                    c.drops.push(arg);
                    ctx = Ctx::None;
                }
                "ignore" => {
                    c.ignore.push(arg);
                    ctx = Ctx::None;
                }
                "bound" => {
                    // @bound key = text
                    let mut it = arg.splitn(2, '=');
                    let k = it.next().unwrap().trim().to_string();
                    let v = it.next().unwrap_or("").trim().to_string();
                    c.bounds.insert(k, v);
                    ctx = Ctx::None;
                }
                "fingerprint" => {
                    let mut it = arg.splitn(2, '=');
                    let k = it.next().unwrap().trim().to_string();
                    let v = it.next().unwrap_or("").trim().to_string();
                    c.fingerprints.insert(k, v);
                    ctx = Ctx::None;
                }
                _ => panic!("{}:{}: unknown directive @{}", file, ln, cmd),
            }
            continue;
        }
        match &ctx {
            Ctx::None => {
                if !line.trim().is_empty() {
                    panic!("{}:{}: text outside section: {}", file, ln, line)
                }
            }
            Ctx::Mod => {
                let m = c.mods.last_mut().unwrap();
                m.text.push_str(line);
                m.text.push('\n');
            }
            Ctx::Impl => {
                let m = c.impls.last_mut().unwrap();
                m.text.push_str(line);
                m.text.push('\n');
            }
            Ctx::Proof(k) => {
                let p = c.fns.get_mut(k).unwrap().proofs.last_mut().unwrap();
                p.text.push_str(line);
                p.text.push('\n');
            }
            Ctx::Fn(k) | Ctx::Loop(k, _) => {
                let f = c.fns.get_mut(k).unwrap();
                let first = line.trim().split_whitespace().next().unwrap_or("").to_string();
                let is_fn = matches!(ctx, Ctx::Fn(_));
                if line.trim().is_empty() {
                    continue;
                }
                if is_fn && !line.starts_with(char::is_whitespace) {
                    let rest = line.trim()[first.len()..].trim().to_string();
                    match first.as_str() {
                        "ret" => {
                            f.ret = Some(rest);
                            continue;
                        }
                        "props" => {
                            f.props.extend(rest.split_whitespace().map(|s| s.to_string()));
                            continue;
                        }
                        "attr" => {
                            f.attrs.push(rest);
                            continue;
                        }
                        "external" => {
                            f.external = Some(rest);
                            continue;
                        }
                        "nloops" => {
                            f.nloops = rest.parse().ok();
                            continue;
                        }
                        "sig" => {
                            f.sig = Some(rest);
                            continue;
                        }
                        "hint" => {
                            let mut it = rest.splitn(2, '=');
                            f.hints.insert(
                                it.next().unwrap().trim().to_string(),
                                it.next().unwrap_or("").trim().to_string(),
                            );
                            continue;
                        }
                        "closure" => {
                            let mut it = rest.splitn(2, char::is_whitespace);
                            f.closures.insert(
                                it.next().unwrap().trim().to_string(),
                                it.next().unwrap_or("").trim().to_string(),
                            );
                            continue;
                        }
                        _ => {}
                    }
                }
                let sec = match &ctx {
                    Ctx::Loop(_, n) => f.loops.get_mut(n).unwrap(),
                    _ => &mut f.spec,
                };
                let mut body = line.to_string();
                if CLAUSE_KW.contains(&first.as_str()) && !line.starts_with(char::is_whitespace) {
                    kind = first.clone();
                    body = line.trim()[first.len()..].to_string();
                    sec.clauses.push(Clause {
                        kind: kind.clone(),
                        tags: vec![],
                        text: String::new(),
                        file: file.to_string(),
                        line: ln,
                    });
                    if body.trim().is_empty() {
                        continue;
                    }
                }
                if kind.is_empty() {
                    panic!("{}:{}: clause text without a clause keyword: {}", file, ln, line);
                }
                let (tags, rest) = parse_tags(&body);
                let starts_new = !tags.is_empty() || body.trim_start().starts_with("- ");
                let rest = if tags.is_empty() && starts_new {
                    body.trim_start()[2..].to_string()
                } else {
                    rest.to_string()
                };
                if starts_new || sec.clauses.last().map_or(true, |l| l.kind != kind) {
                    let reuse = sec
                        .clauses
                        .last()
                        .map_or(false, |l| l.kind == kind && l.text.trim().is_empty());
                    if !reuse {
                        sec.clauses.push(Clause {
                            kind: kind.clone(),
                            tags: vec![],
                            text: String::new(),
                            file: file.to_string(),
                            line: ln,
                        });
                    }
                    sec.clauses.last_mut().unwrap().tags = tags;
                }
                let l = sec.clauses.last_mut().unwrap();
                l.text.push_str(&rest);
                l.text.push('\n');
            }
        }
    }
}
