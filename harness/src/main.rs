//! Looks for inputs on which the crate in /repo breaks a property, and replays them.
//!   harness search PROPERTY SEED SECONDS REPLAY_FILE STATS_FILE
//!   harness replay REPLAY_FILE
//!   harness stubs SEED SECONDS (the assumed contracts of std functions against std)
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

mod gen;
mod stubs;

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Input {
    Text(String),
    Toks(Vec<String>),
}

macro_rules! entries { ($($e:ident),*) => {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Entry { $($e),* }
    pub const ENTRIES: &[Entry] = &[$(Entry::$e),*];
} }
entries!(Complete, AndOr, Pipeline, Command, Simple, RedirectList, Redirect, Heredoc, Word, WordPreserve, Backtick, Param,
    DoGroup, Brace, Subshell, Compound, Loop, If, For, Case, MaybeFn, Function, Arith, Group, GroupDelim, SkipWs, Newline,
    Linebreak, PeekTok, PeekWord, ResTok, ResWord);

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub res: Result<String, String>,
    pub pos: [usize; 3],
    pub end: bool,
}

mod cur {
    use conch_parser as cp;
    include!("imp.rs");
    #[cfg(feature = "hooks")]
    pub mod hook { include!("hook.rs"); }
}
#[allow(dead_code)]
mod pin {
    use conch_pinned as cp;
    include!("imp.rs");
    #[cfg(feature = "hooks")]
    pub mod hook { include!("hook.rs"); }
}

/// One case: an input and a number choosing the variation (entry, wrapper, operations).
#[derive(Clone, Debug, PartialEq)]
pub struct Case { pub input: Input, pub var: u64 }

fn run_pair(i: &Input, prog: &[Entry]) -> (Vec<Out>, Vec<Out>) {
    let b = pin::run(i, prog, &Rc::new(Default::default()));
    let a = cur::run(i, prog, &Rc::new(Default::default()));
    (a, b)
}
/// What was returned, whatever the position and the details of errors.
fn values(v: &[Out]) -> Vec<Result<String, ()>> { v.iter().map(|o| o.res.clone().map_err(|_| ())).collect() }
fn diff_values(i: &Input, prog: &[Entry]) -> Result<(), String> {
    let (a, b) = run_pair(i, prog);
    if values(&a) == values(&b) { Ok(()) } else { Err(mismatch(&a, &b)) }
}
fn mismatch(a: &[Out], b: &[Out]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("returned {:?}\nexpected {:?}", a.get(n), b.get(n))
}
fn wrap(i: &Input, f: impl Fn(&str) -> String) -> Input {
    match i { Input::Text(s) => Input::Text(f(s)), t => t.clone() }
}

mod reflex;

/// Decides one case on the current tree.
pub fn check(p: &str, c: &Case) -> Result<(), String> {
    let i = &c.input;
    let text = match i { Input::Text(s) => s.as_str(), _ => "" };
    match p {
        "C01" => {
            let v = cur::lex(text);
            let s: String = v.iter().map(|x| &*x.1).collect();
            if s != text { return Err(format!("the tokens spell {:?}", s)); }
            if v.iter().filter(|x| x.0 != "END").any(|x| x.1.is_empty()) { return Err("empty token".into()); }
            if v.last().map(|x| &*x.0) != Some("END") { return Err(format!("{}", v.last().unwrap().0)); }
        }
        "C02" => {
            let v: Vec<String> = cur::lex(text).into_iter().map(|x| x.0).collect();
            let w = reflex::tokens(text);
            if v != w { return Err(format!("tokens {:?}\nexpected {:?}", v, w)); }
        }
        "C25" => {
            let v = cur::lex(text);
            let n = v.iter().position(|x| x.0 == "END").unwrap();
            for (k, x) in v[..=n].iter().enumerate() {
                let left = n - k;
                if (x.2).0 > left || (x.2).1.map_or(false, |h| h < left) { return Err(format!("size hint {:?} with {} tokens left", x.2, left)); }
            }
        }
        "C03" => {
            // absolute positions over whole inputs, and over sequences of small steps
            let prog: Vec<Entry> = if c.var % 2 == 0 { vec![Entry::Complete] } else {
                let mut r = Rng(c.var);
                let small = [Entry::Newline, Entry::Linebreak, Entry::SkipWs, Entry::PeekTok, Entry::PeekWord, Entry::ResTok, Entry::ResWord,
                    Entry::Redirect, Entry::Word, Entry::WordPreserve, Entry::Simple, Entry::Complete];
                (0..6).map(|_| *r.pick(&small)).collect()
            };
            let i2 = match (c.var / 2) % 4 { 1 => wrap(i, |s| format!("`{}`", s)), 2 => wrap(i, |s| format!("echo `a \\`{}\\``", s)), _ => i.clone() };
            let (a, b) = run_pair(&i2, &prog);
            if values(&a) == values(&b) && a != b { return Err(mismatch(&a, &b)); }
            #[cfg(feature = "hooks")]
            {
                stream(i, c.var)?;
                let (x, y) = (cur::hook::backticks(i).2, pin::hook::backticks(i).2);
                let toks = |v: &[String]| v.iter().map(|s| s.split(" at ").next().unwrap().to_owned()).collect::<Vec<_>>();
                if toks(&x) == toks(&y) && x != y { return Err(format!("between backticks: {:?}\nexpected {:?}", x, y)); }
            }
        }
        "C04" => {
            let prog = [Entry::PeekTok, Entry::PeekWord, Entry::Simple, Entry::PeekTok, Entry::PeekWord, Entry::Complete];
            let (a, b) = run_pair(i, &prog);
            if values(&a) != values(&b) { return Err(mismatch(&a, &b)); }
            #[cfg(feature = "hooks")]
            stream(i, c.var)?;
        }
        "C05" => {
            #[cfg(feature = "hooks")]
            {
                let (k, s) = ((c.var % 4) as usize, (c.var / 4 % 2) as usize);
                let (a, b) = (cur::hook::balanced(i, k, s), pin::hook::balanced(i, k, s));
                if a != b { return Err(format!("{:?}\nexpected {:?}", a, b)); }
            }
            #[cfg(not(feature = "hooks"))]
            { let (a, b) = run_pair(i, &[Entry::Word, Entry::Simple]); if a != b { return Err(mismatch(&a, &b)); } }
        }
        "C06" => {
            #[cfg(feature = "hooks")]
            {
                let (a, b) = (cur::hook::backticks(i), pin::hook::backticks(i));
                if a.0 != a.1 { return Err(format!("one way {:?}\nother way {:?}", a.0, a.1)); }
                if a.0 != b.0 { return Err(format!("{:?}\nexpected {:?}", a.0, b.0)); }
            }
            diff_values(&wrap(i, |s| format!("`{}`", s)), &[Entry::Word, Entry::Complete])?;
            diff_values(&wrap(i, |s| format!("`a \\`{}\\` b` c", s)), &[Entry::Backtick])?;
        }
        "C07" => {
            let e = ENTRIES[(c.var % ENTRIES.len() as u64) as usize];
            cur::run(i, &[e], &Rc::new(Default::default()));
            cur::run_default(i, &[Entry::Complete], (c.var % 4) as usize);
            if !text.is_empty() { cur::lex(text); }
        }
        "C08" => {
            let e = ENTRIES[(c.var % ENTRIES.len() as u64) as usize];
            cur::run(i, &[e], &Rc::new(Default::default()));
            let v = cur::run(i, &[Entry::Complete], &Rc::new(Default::default()));
            let mut last = 0;
            for x in &v {
                if let Ok(s) = &x.res {
                    if s != "None" && !text.is_empty() && x.pos[0] <= last { return Err(format!("no progress: {:?}", x)); }
                }
                last = x.pos[0];
            }
            if let Input::Toks(t) = i { if v.len() > t.len() + 1 { return Err(format!("{} commands from {} tokens", v.len(), t.len())); } }
        }
        "C09" => cur::fused(i, if c.var % 3 == 0 { (c.var / 3 % 12) as usize } else { 0 })?,
        "C10" => {
            let prog = [Entry::PeekTok, Entry::PeekWord, Entry::ResTok, Entry::ResWord];
            let prog: Vec<Entry> = (0..4).map(|k| prog[((c.var >> (2 * k)) % 4) as usize]).collect();
            let (a, b) = run_pair(i, &prog);
            let f = |v: &[Out]| v.iter().map(|o| (o.res.clone().map_err(|_| ()), o.pos[0])).collect::<Vec<_>>();
            if f(&a) != f(&b) { return Err(mismatch(&a, &b)); }
        }
        "C11" => {
            let prog = [Entry::SkipWs, Entry::Newline, Entry::Linebreak, Entry::Word];
            let prog: Vec<Entry> = (0..3).map(|k| prog[((c.var >> (2 * k)) % 4) as usize]).collect();
            let (a, b) = run_pair(i, &prog);
            let f = |v: &[Out]| v.iter().map(|o| (o.res.clone().map_err(|_| ()), o.pos[0])).collect::<Vec<_>>();
            if f(&a) != f(&b) { return Err(mismatch(&a, &b)); }
        }
        "C12" => {
            diff_values(&wrap(i, |s| format!("$(({}))", s)), &[Entry::Word])?;
            diff_values(i, &[Entry::Arith, Entry::Linebreak])?;
        }
        "C13" => {
            diff_values(i, &[Entry::Complete])?;
            diff_values(i, &[[Entry::AndOr, Entry::Pipeline][(c.var % 2) as usize]])?;
        }
        "C14" => {
            cur::errors_surface(i, ENTRIES[(c.var % ENTRIES.len() as u64) as usize])?;
            cur::errors_surface(i, Entry::Complete)?;
        }
        "C15" => {
            diff_values(i, &[[Entry::Word, Entry::WordPreserve, Entry::Simple][(c.var % 3) as usize], Entry::Word])?;
            diff_values(&wrap(i, |s| format!("\"{}\" b", s)), &[Entry::Word, Entry::Word])?;
        }
        "C16" => {
            diff_values(i, &[[Entry::Redirect, Entry::RedirectList, Entry::Simple, Entry::Complete][(c.var % 4) as usize]])?;
            let (a, b) = run_pair(i, &[Entry::Redirect]);
            let bad = |v: &[Out]| v.last().and_then(|o| o.res.clone().err()).filter(|s| s.starts_with("BadFd"));
            if bad(&a) != bad(&b) { return Err(mismatch(&a, &b)); }
        }
        "C17" => {
            diff_values(i, &[[Entry::Complete, Entry::Heredoc][(c.var % 4 / 3) as usize]])?;
            if c.var % 3 == 0 { diff_values(&wrap(i, |s| format!("cat <<E\n{}\nE\nx", s)), &[Entry::Complete])?; }
            if c.var % 3 == 1 { diff_values(&wrap(i, |s| format!("cat <<-E; b\n\t{}\n\tE\nx", s)), &[Entry::Complete])?; }
        }
        "C18" => {
            let (a, b) = (cur::build_other(c.var), pin::build_other(c.var));
            if a.0 == b.0 && a != b { return Err(format!("{}\nbuilt {}\nexpected {}", a.0, a.1, b.1)); }
            let (a, b) = (cur::build_word(c.var), pin::build_word(c.var));
            if a.0 == b.0 && a != b { return Err(format!("{}\nbuilt {}\nexpected {}", a.0, a.1, b.1)); }
            let (a, b) = run_pair(i, &[Entry::Complete]);
            if a == b {
                let w = (c.var % 3) as usize;
                let (a, b) = (cur::run_default(i, &[Entry::Complete], w), pin::run_default(i, &[Entry::Complete], w));
                if values(&a) != values(&b) { return Err(mismatch(&a, &b)); }
            }
        }
        "C19" => {
            let (a, b) = (cur::build_word(c.var), pin::build_word(c.var));
            if a != b { return Err(format!("{}\nbuilt {}\nexpected {}", a.0, a.1, b.1)); }
        }
        "C20" => cur::delegation(i, ENTRIES[(c.var % ENTRIES.len() as u64) as usize], if c.var % 3 == 0 { (c.var / 97 % 6) as usize } else { 0 }, c.var)
            .and_then(|_| cur::delegation(i, Entry::Complete, 0, c.var ^ 1))?,
        "C22" => {
            let (a, b) = run_pair(i, &[Entry::Param]);
            let f = |v: &[Out]| v.iter().map(|o| match &o.res { Err(s) if !s.starts_with("BadSubst") => Err(String::new()), r => r.clone() }).collect::<Vec<_>>();
            if f(&a) != f(&b) { return Err(mismatch(&a, &b)); }
            let i2 = wrap(i, |s| format!("${{{}}}", s));
            let (a, b) = run_pair(&i2, &[Entry::Param]);
            if f(&a) != f(&b) { return Err(mismatch(&a, &b)); }
            diff_values(&wrap(i, |s| format!("${}", s)), &[Entry::Word])?;
        }
        "C23" => {
            let e = if c.var % 2 == 0 { Entry::Complete } else { ENTRIES[(c.var / 2 % ENTRIES.len() as u64) as usize] };
            let (a, b) = run_pair(i, &[e]);
            let f = |v: &[Out]| v.last().and_then(|o| o.res.clone().err());
            if let (Some(x), Some(y)) = (f(&a), f(&b)) { if x != y { return Err(format!("error {}\nexpected {}", x, y)); } }
        }
        "C24" => {
            let es = [Entry::Complete, Entry::Compound, Entry::If, Entry::For, Entry::Case, Entry::Loop, Entry::Brace, Entry::Subshell, Entry::Command, Entry::Function, Entry::MaybeFn, Entry::DoGroup];
            diff_values(i, &[es[(c.var % es.len() as u64) as usize]])?;
            diff_values(i, &[Entry::Complete])?;
        }
        "C26" => cur::direct_arc::display(text, c.var)?,
        _ => panic!("unknown property"),
    }
    Ok(())
}
#[cfg(feature = "hooks")]
fn stream(i: &Input, seed: u64) -> Result<(), String> {
    let (a, b) = (cur::hook::stream_ops(i, seed), cur::hook::stream_model(i, seed));
    if a != b {
        let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        return Err(format!("token stream operation {} of {:?}: {:?}\nexpected {:?}", n, &a[..n], a.get(n), b.get(n)));
    }
    Ok(())
}
fn check_caught(p: &str, c: &Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| check(p, c))) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

fn shrink(p: &str, c: Case) -> Case {
    let mut best = c;
    let t0 = Instant::now();
    'outer: while t0.elapsed() < Duration::from_secs(10) {
        let cands: Vec<Input> = match &best.input {
            Input::Text(s) => {
                let cs: Vec<char> = s.chars().collect();
                let mut v = Vec::new();
                let mut w = cs.len() / 2;
                while w > 0 { for i in (0..cs.len()).step_by((w / 2).max(1)) { if i + w <= cs.len() { v.push(Input::Text(cs[..i].iter().chain(&cs[i + w..]).collect())); } } w /= 2; }
                v
            }
            Input::Toks(t) => (0..t.len()).map(|i| { let mut u = t.clone(); u.remove(i); Input::Toks(u) }).collect(),
        };
        for input in cands {
            let c = Case { input, var: best.var };
            BEAT.fetch_add(1, Ordering::Relaxed);
            if check_caught(p, &c).is_err() { best = c; continue 'outer; }
        }
        break;
    }
    best
}

static BEAT: AtomicU64 = AtomicU64::new(0);

fn encode(p: &str, c: &Case, why: &str) -> String {
    let (kind, parts): (&str, Vec<String>) = match &c.input { Input::Text(s) => ("text", vec![s.clone()]), Input::Toks(t) => ("tokens", t.clone()) };
    let mut s = format!("property {}\nvariation {}\nkind {}\n", p, c.var, kind);
    for x in parts { s += &format!("input {:?}\n", x); }
    s + &format!("what {}\n", why.replace('\n', "\n  "))
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let s = &s[1..s.len() - 1];
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue; }
        match it.next().unwrap() {
            'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), '0' => o.push('\0'),
            'u' => { it.next(); let h: String = it.by_ref().take_while(|&c| c != '}').collect(); o.push(std::char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap()); }
            c => o.push(c),
        }
    }
    o
}
fn decode(s: &str) -> (String, Case) {
    let (mut p, mut var, mut kind, mut parts) = (String::new(), 0, String::new(), vec![]);
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") { p = x.into() }
        if let Some(x) = l.strip_prefix("variation ") { var = x.parse().unwrap() }
        if let Some(x) = l.strip_prefix("kind ") { kind = x.into() }
        if let Some(x) = l.strip_prefix("input ") { parts.push(unescape(x)) }
        if l.starts_with("what ") { break; }
    }
    let input = if kind == "tokens" { Input::Toks(parts) } else { Input::Text(parts.concat()) };
    (p, Case { input, var })
}

/// Cases in order: every sequence over the property's alphabet up to a length (with a few
/// variations each), then random ones.
struct Cases { p: String, r: Rng, idx: Vec<usize>, max: usize, exhaustive_done: bool, turn: u64 }
impl Cases {
    fn new(p: &str, seed: u64) -> Cases {
        let n = gen::alphabet(p).len();
        let max = if n <= 12 { 5 } else if n <= 20 { 4 } else { 3 };
        Cases { p: p.into(), r: Rng(seed), idx: vec![], max, exhaustive_done: false, turn: 0 }
    }
    fn next(&mut self) -> Case {
        self.turn += 1;
        let p = self.p.clone();
        let var = self.r.next() >> 8;
        // alternate between the enumeration and random cases
        if !self.exhaustive_done && self.turn % 2 == 0 {
            let al = gen::alphabet(&p);
            let s: String = self.idx.iter().map(|&k| al[k]).collect();
            let mut k = 0;
            loop {
                if k == self.idx.len() { self.idx.push(0); break; }
                self.idx[k] += 1;
                if self.idx[k] < al.len() { break; }
                self.idx[k] = 0;
                k += 1;
            }
            if self.idx.len() > self.max { self.exhaustive_done = true; }
            return Case { input: Input::Text(s), var };
        }
        let toks = match &*p { "C01" | "C02" | "C25" | "C18" | "C19" | "C26" => false, "C07" | "C08" | "C14" | "C03" | "C04" | "C09" => self.r.below(4) == 0, _ => self.r.below(8) == 0 };
        if toks {
            let odd = ["N:", "L:", "W:", "L:a b", "N:9x", "L:\n", "W:\n", "W:x", "N:if", "L:if", "N:é", "L:1", "L:999999", "N:$", "L:\"", "\\", "L:\n\n", "W: \n\n", "N:a\nb\n", "END"];
            let n = 1 + self.r.below(10);
            let al = if self.r.below(2) == 0 { gen::ALL } else { gen::alphabet(&p) };
            let v = (0..n).map(|_| if self.r.below(4) == 0 { self.r.pick(&odd).to_string() } else {
                let s = *self.r.pick(al);
                let t = s.trim_matches(' ');
                if t.is_empty() { "W: ".to_string() } else if t.chars().all(|c| c.is_alphanumeric()) { format!("N:{}", t) } else { t.to_string() }
            }).collect();
            return Case { input: Input::Toks(v), var };
        }
        let s = gen::random(&p, &mut self.r);
        Case { input: Input::Text(s), var }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let child = std::thread::Builder::new().stack_size(512 << 20);
    let code = if a[1] == "stubs" {
        match stubs::run(a[2].parse().unwrap(), a[3].parse().unwrap()) {
            Ok(n) => { println!("{}", n); 0 }
            Err(e) => { println!("{}", e); 1 }
        }
    } else if a[1] == "replay" {
        let (p, c) = decode(&std::fs::read_to_string(&a[2]).unwrap());
        let current = Arc::new(Mutex::new(String::new()));
        *current.lock().unwrap() = encode(&p, &c, "no answer within 20 s");
        watch(current, None, None);
        child.spawn(move || match check_caught(&p, &c) {
            Ok(()) => { println!("property {} holds on this input", p); 0 }
            Err(e) => { print!("{}", encode(&p, &c, &e)); 1 }
        }).unwrap().join().unwrap()
    } else {
        let (p, seed, secs) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap());
        let (out, stats) = (a[5].clone(), a[6].clone());
        let current = Arc::new(Mutex::new(String::new()));
        watch(current.clone(), Some(out.clone()), Some(p.clone()));
        child.spawn(move || {
            let t0 = Instant::now();
            let mut cases = Cases::new(&p, seed.wrapping_mul(1000003));
            let (mut n, mut seen) = (0u64, std::collections::HashSet::new());
            let mut samples = vec![];
            let mut bad = None;
            while t0.elapsed().as_secs_f64() < secs {
                let c = cases.next();
                *current.lock().unwrap() = encode(&p, &c, "no answer within 20 s");
                BEAT.fetch_add(1, Ordering::Relaxed);
                n += 1;
                if seen.len() < 2_000_000 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    match &c.input { Input::Text(s) => s.hash(&mut h), Input::Toks(t) => t.hash(&mut h) }
                    if match &c.input { Input::Text(s) => s.len() > 1, _ => true } { seen.insert(h.finish()); }
                }
                if n % 997 == 50 && samples.len() < 5 { samples.push(format!("{:?}", c)); }
                if check_caught(&p, &c).is_err() { bad = Some(c); break; }
            }
            let s = format!("evaluations {}\ndistinct {}\nexhaustive_len {}\n{}", n, seen.len(), if cases.exhaustive_done { cases.max } else { cases.idx.len().saturating_sub(1) },
                samples.iter().map(|s| format!("sample {}\n", s)).collect::<String>());
            std::fs::write(&stats, s).unwrap();
            match bad {
                None => 0,
                Some(c) => {
                    let c = shrink(&p, c);
                    let e = check_caught(&p, &c).unwrap_err();
                    std::fs::write(&out, encode(&p, &c, &e)).unwrap();
                    print!("{}", encode(&p, &c, &e));
                    1
                }
            }
        }).unwrap().join().unwrap()
    };
    std::process::exit(code);
}
/// Ends the process when one case gives no answer for 20 seconds.
fn watch(current: Arc<Mutex<String>>, out: Option<String>, _p: Option<String>) {
    std::thread::spawn(move || {
        let (mut last, mut same) = (u64::MAX, 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            if b == last { same += 1 } else { same = 0; last = b }
            if same >= 20 {
                let s = current.lock().unwrap().clone();
                if let Some(o) = &out { std::fs::write(o, &s).unwrap(); }
                print!("{}", s);
                std::process::exit(1);
            }
        }
    });
}
