// Included twice: once with `cp` = the crate in /repo, once with `cp` = the pinned copy.
use cp::ast::builder::*;
use cp::ast::{AndOr, RedirectOrCmdWord, RedirectOrEnvVar};
use cp::lexer::Lexer;
use cp::parse::*;
use cp::token::{Positional, Token};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Debug};
use std::rc::Rc;

use crate::{Entry, Input, Out};

#[derive(Clone)]
pub struct T(pub Rc<str>);
impl Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}

/// What a run did to its builder and token source.
#[derive(Default)]
pub struct Obs {
    pub calls: Cell<usize>,
    pub fail_at: Cell<usize>,
    pub pulls: Cell<usize>,
    pub logging: Cell<bool>,
    pub log: RefCell<Vec<String>>,
}

/// Builds S-expressions out of exactly what the parser passes in.
pub struct Tree(pub Rc<Obs>);
impl Tree {
    fn out(&mut self, s: String) -> Result<T, usize> {
        let n = self.0.calls.get() + 1;
        self.0.calls.set(n);
        if self.0.logging.get() { self.0.log.borrow_mut().push(s.clone()); }
        if self.0.fail_at.get() == n { Err(n) } else { Ok(T(s.into())) }
    }
}
impl Builder for Tree {
    type Command = T;
    type CommandList = T;
    type ListableCommand = T;
    type PipeableCommand = T;
    type CompoundCommand = T;
    type Word = T;
    type Redirect = T;
    type Error = usize;
    fn complete_command(&mut self, a: Vec<Newline>, b: T, c: SeparatorKind, d: Option<Newline>) -> Result<T, usize> {
        self.out(format!("(complete {:?} {:?} {:?} {:?})", a, b, c, d))
    }
    fn and_or_list(&mut self, a: T, b: Vec<(Vec<Newline>, AndOr<T>)>) -> Result<T, usize> {
        self.out(format!("(andor {:?} {:?})", a, b))
    }
    fn pipeline(&mut self, a: bool, b: Vec<(Vec<Newline>, T)>) -> Result<T, usize> {
        self.out(format!("(pipe {:?} {:?})", a, b))
    }
    fn simple_command(&mut self, a: Vec<RedirectOrEnvVar<T, String, T>>, b: Vec<RedirectOrCmdWord<T, T>>) -> Result<T, usize> {
        self.out(format!("(simple {:?} {:?})", a, b))
    }
    fn brace_group(&mut self, a: CommandGroup<T>, b: Vec<T>) -> Result<T, usize> { self.out(format!("(brace {:?} {:?})", a, b)) }
    fn subshell(&mut self, a: CommandGroup<T>, b: Vec<T>) -> Result<T, usize> { self.out(format!("(subshell {:?} {:?})", a, b)) }
    fn loop_command(&mut self, a: LoopKind, b: GuardBodyPairGroup<T>, c: Vec<T>) -> Result<T, usize> {
        self.out(format!("(loop {:?} {:?} {:?})", a, b, c))
    }
    fn if_command(&mut self, a: IfFragments<T>, b: Vec<T>) -> Result<T, usize> { self.out(format!("(if {:?} {:?})", a, b)) }
    fn for_command(&mut self, a: ForFragments<T, T>, b: Vec<T>) -> Result<T, usize> { self.out(format!("(for {:?} {:?})", a, b)) }
    fn case_command(&mut self, a: CaseFragments<T, T>, b: Vec<T>) -> Result<T, usize> { self.out(format!("(case {:?} {:?})", a, b)) }
    fn compound_command_into_pipeable(&mut self, a: T) -> Result<T, usize> { self.out(format!("(compound {:?})", a)) }
    fn function_declaration(&mut self, a: String, b: Vec<Newline>, c: T) -> Result<T, usize> {
        self.out(format!("(function {:?} {:?} {:?})", a, b, c))
    }
    fn comments(&mut self, a: Vec<Newline>) -> Result<(), usize> { self.out(format!("(comments {:?})", a)).map(|_| ()) }
    fn word(&mut self, a: ComplexWordKind<T>) -> Result<T, usize> { self.out(format!("(word {:?})", a)) }
    fn redirect(&mut self, a: RedirectKind<T>) -> Result<T, usize> { self.out(format!("(redirect {:?})", a)) }
}

pub enum Src<'a> {
    Text(Lexer<std::str::Chars<'a>>, Rc<Obs>),
    /// `None` within the list: a source which comes back to life after its end.
    Toks(std::vec::IntoIter<Option<Token>>, Rc<Obs>),
}
impl<'a> Iterator for Src<'a> {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        match self {
            Src::Text(l, o) => { o.pulls.set(o.pulls.get() + 1); l.next() }
            Src::Toks(l, o) => { o.pulls.set(o.pulls.get() + 1); l.next().flatten() }
        }
    }
}

/// A token from its description: an operator's text, or `N:`/`L:`/`W:` and the text.
pub fn mk_tok(s: &str) -> Token {
    if s.len() >= 2 && s.is_char_boundary(2) {
        let r = s[2..].to_owned();
        match &s[..2] {
            "N:" => return Token::Name(r),
            "L:" => return Token::Literal(r),
            "W:" => return Token::Whitespace(r),
            _ => {}
        }
    }
    if s == "\\" { return Token::Backslash; }
    Lexer::new(s.chars()).next().unwrap_or(Token::Newline)
}
pub fn src<'a>(i: &'a Input, o: &Rc<Obs>) -> Src<'a> {
    match i {
        Input::Text(s) => Src::Text(Lexer::new(s.chars()), o.clone()),
        Input::Toks(v) => Src::Toks(v.iter().map(|s| if s == "END" { None } else { Some(mk_tok(s)) }).collect::<Vec<_>>().into_iter(), o.clone()),
    }
}
pub fn pos3(p: SourcePos) -> [usize; 3] { [p.byte, p.line, p.col] }

const WORDS: &[&str] = &["foo", "if", "done", "{", "!"];
pub fn res_toks() -> [Token; 4] { [Token::Semi, Token::ParenOpen, Token::Name("foo".into()), Token::Bang] }

pub fn step<I, B>(p: &mut Parser<I, B>, e: Entry) -> Out
where
    I: Iterator<Item = Token>,
    B: Builder,
    B::Command: Debug,
    B::CommandList: Debug,
    B::ListableCommand: Debug,
    B::PipeableCommand: Debug,
    B::CompoundCommand: Debug,
    B::Word: Debug,
    B::Redirect: Debug,
    B::Error: Debug,
{
    fn r<X: Debug, E: Debug>(x: ParseResult<X, E>) -> (Result<String, String>, bool) {
        match x {
            Ok(x) => { let s = format!("{:?}", x); let end = s == "None"; (Ok(s), end) }
            Err(e) => (Err(format!("{:?}", e)), true),
        }
    }
    let toks = res_toks();
    let (res, end) = match e {
        Entry::Complete => r(p.complete_command()),
        Entry::AndOr => r(p.and_or_list()),
        Entry::Pipeline => r(p.pipeline()),
        Entry::Command => r(p.command()),
        Entry::Simple => r(p.simple_command()),
        Entry::RedirectList => r(p.redirect_list()),
        Entry::Redirect => r(p.redirect()),
        Entry::Heredoc => r(p.redirect_heredoc(Some(3))),
        Entry::Word => r(p.word()),
        Entry::WordPreserve => r(p.word_preserve_trailing_whitespace()),
        Entry::Backtick => r(p.backticked_command_substitution()),
        Entry::Param => r(p.parameter()),
        Entry::DoGroup => r(p.do_group()),
        Entry::Brace => r(p.brace_group()),
        Entry::Subshell => r(p.subshell()),
        Entry::Compound => r(p.compound_command()),
        Entry::Loop => r(p.loop_command()),
        Entry::If => r(p.if_command()),
        Entry::For => r(p.for_command()),
        Entry::Case => r(p.case_command()),
        Entry::MaybeFn => r(p.maybe_function_declaration()),
        Entry::Function => r(p.function_declaration()),
        Entry::Arith => r(p.arithmetic_substitution()),
        Entry::Group => r(p.command_group(CommandGroupDelimiters::default())),
        Entry::GroupDelim => r(p.command_group(CommandGroupDelimiters {
            reserved_words: &["done", "fi"],
            reserved_tokens: &[Token::CurlyClose],
            exact_tokens: &[Token::ParenClose, Token::DSemi],
        })),
        Entry::SkipWs => { p.skip_whitespace(); (Ok(String::new()), false) }
        Entry::Newline => (Ok(format!("{:?}", p.newline())), false),
        Entry::Linebreak => (Ok(format!("{:?}", p.linebreak())), false),
        Entry::PeekTok => (Ok(format!("{:?}", p.peek_reserved_token(&toks))), false),
        Entry::PeekWord => (Ok(format!("{:?}", p.peek_reserved_word(WORDS))), false),
        Entry::ResTok => r(p.reserved_token(&toks)),
        Entry::ResWord => {
            let x = p.reserved_word(WORDS);
            match x { Ok(w) => (Ok(w.to_owned()), false), Err(()) => (Err("not reserved".into()), true) }
        }
    };
    Out { res, pos: pos3(p.pos()), end }
}

/// Runs the entries in order on one parser (`Complete` repeatedly until the end or an error).
pub fn run(i: &Input, prog: &[Entry], o: &Rc<Obs>) -> Vec<Out> {
    run_with(i, prog, o, Tree(o.clone()))
}
pub fn run_with<B>(i: &Input, prog: &[Entry], o: &Rc<Obs>, b: B) -> Vec<Out>
where
    B: Builder,
    B::Command: Debug,
    B::CommandList: Debug,
    B::ListableCommand: Debug,
    B::PipeableCommand: Debug,
    B::CompoundCommand: Debug,
    B::Word: Debug,
    B::Redirect: Debug,
    B::Error: Debug,
{
    let mut p = Parser::with_builder(src(i, o), b);
    let mut v = Vec::new();
    for &e in prog {
        loop {
            let x = step(&mut p, e);
            let stop = x.end;
            v.push(x);
            if e != Entry::Complete || stop { break; }
        }
        if v.last().map_or(false, |x| x.res.is_err() && e != Entry::ResTok && e != Entry::ResWord) { break; }
    }
    v
}
/// Runs with the default builder (0: strings, 1: `Rc`, 2: `Arc`), and 3: with the empty builder.
pub fn run_default(i: &Input, prog: &[Entry], which: usize) -> Vec<Out> {
    let o = Rc::new(Obs::default());
    match which {
        0 => run_with(i, prog, &o, StringBuilder::new()),
        1 => run_with(i, prog, &o, RcBuilder::new()),
        2 => run_with(i, prog, &o, ArcBuilder::new()),
        _ => run_with(i, prog, &o, EmptyBuilder),
    }
}

/// The tokens of a text: description of each, the text of each, and a size hint before each.
pub fn lex(s: &str) -> Vec<(String, String, (usize, Option<usize>))> {
    /// A source which comes back to life after its end.
    struct Back<'a>(std::str::Chars<'a>, usize);
    impl<'a> Iterator for Back<'a> {
        type Item = char;
        fn next(&mut self) -> Option<char> {
            match self.0.next() { Some(c) => Some(c), None => { self.1 += 1; if self.1 == 1 { None } else { Some('z') } } }
        }
        fn size_hint(&self) -> (usize, Option<usize>) { if self.1 == 0 { self.0.size_hint() } else { (0, None) } }
    }
    let mut l = Lexer::new(Back(s.chars(), 0));
    let mut v = Vec::new();
    loop {
        let h = l.size_hint();
        match l.next() {
            Some(t) => v.push((format!("{:?}", t), t.to_string(), h)),
            None => { v.push(("END".into(), String::new(), h)); break; }
        }
    }
    for _ in 0..2 {
        if let Some(t) = l.next() { v.push((format!("AFTER END {:?}", t), t.to_string(), (0, None))); }
    }
    v
}

/// The fused iterator against successive calls of `complete_command`.
pub fn fused(i: &Input, fail: usize) -> Result<(), String> {
    let o1 = Rc::new(Obs::default());
    let o2 = Rc::new(Obs::default());
    o1.fail_at.set(fail);
    o2.fail_at.set(fail);
    let mut p = Parser::with_builder(src(i, &o1), Tree(o1.clone()));
    let mut it = Parser::with_builder(src(i, &o2), Tree(o2.clone())).into_iter();
    for _ in 0..10000 {
        let a = p.complete_command();
        let b = it.next();
        let (sa, end) = match a {
            Ok(None) => ("None".to_owned(), true),
            Ok(Some(x)) => (format!("Some(Ok({:?}))", x), false),
            Err(e) => (format!("Some(Err({:?}))", e), true),
        };
        let sb = format!("{:?}", b);
        if sa != sb { return Err(format!("iterator yielded {} where complete_command gives {}", sb, sa)); }
        if o1.calls.get() != o2.calls.get() { return Err("iterator called the builder a different number of times".into()); }
        if end {
            let (c, q) = (o2.calls.get(), o2.pulls.get());
            for _ in 0..3 {
                if let Some(x) = it.next() { return Err(format!("iterator yielded {:?} after {}", x, sb)); }
            }
            if o2.calls.get() != c { return Err(format!("iterator called the builder after {}", sb)); }
            if o2.pulls.get() != q { return Err(format!("iterator asked for tokens after {}", sb)); }
            return Ok(());
        }
    }
    Err("iterator does not end".into())
}

/// Builder errors surface unchanged and stop parsing.
pub fn errors_surface(i: &Input, e: Entry) -> Result<(), String> {
    let o = Rc::new(Obs::default());
    let v = run(i, &[e], &o);
    let n = o.calls.get();
    if let Some(x) = v.iter().find_map(|x| x.res.as_ref().err().filter(|s| s.starts_with("Custom"))) {
        return Err(format!("{} although the builder never failed", x));
    }
    for k in 1..=n.min(40) {
        let o = Rc::new(Obs::default());
        o.fail_at.set(k);
        let v = run(i, &[e], &o);
        let want = format!("Custom({})", k);
        match v.last() {
            Some(x) if x.res.as_ref().err() == Some(&want) => {}
            x => return Err(format!("builder call {} failed but the result is {:?}", k, x)),
        }
        if o.calls.get() != k { return Err(format!("builder called again after failing call {}", k)); }
    }
    Ok(())
}

/// Delegating builders behave as the builder itself; the empty builder never fails.
/// Calls of every method with arguments which the parser itself may never pass.
fn direct<B>(b: &mut B, seed: u64) -> String
where B: Builder<Command = T, CommandList = T, ListableCommand = T, PipeableCommand = T, CompoundCommand = T, Word = T, Redirect = T, Error = usize>
{
    let mut g = crate::Rng(seed);
    let r = &mut g;
    let mut out = String::new();
    macro_rules! t { () => { T(Rc::from(*r.pick(&["", "a", "b"]))) } }
    macro_rules! many { ($e:expr) => {{ let n = r.below(3); let mut v = vec![]; for _ in 0..n { v.push($e) } v }} }
    macro_rules! opt { ($e:expr) => { if r.below(2) == 0 { None } else { Some($e) } } }
    macro_rules! nl { () => { many!(Newline(opt!("# c".into()))) } }
    macro_rules! onl { () => { opt!(Newline(opt!("# d".into()))) } }
    macro_rules! group { () => { CommandGroup { commands: many!(t!()), trailing_comments: nl!() } } }
    macro_rules! gb { () => { GuardBodyPairGroup { guard: group!(), body: group!() } } }
    for _ in 0..20 {
        let s = match r.below(15) {
            0 => { let (x, y, z) = (nl!(), t!(), onl!()); let k = *r.pick(&[0, 1, 2, 3]);
                format!("{:?}", b.complete_command(x, y, match k { 0 => SeparatorKind::Semi, 1 => SeparatorKind::Amp, 2 => SeparatorKind::Newline, _ => SeparatorKind::Other }, z)) }
            1 => { let (x, y) = (t!(), many!((nl!(), if r.below(2) == 0 { AndOr::And(t!()) } else { AndOr::Or(t!()) }))); format!("{:?}", b.and_or_list(x, y)) }
            2 => { let (x, y) = (r.below(2) == 0, many!((nl!(), t!()))); format!("{:?}", b.pipeline(x, y)) }
            3 => { let x = many!(if r.below(2) == 0 { RedirectOrEnvVar::Redirect(t!()) } else { RedirectOrEnvVar::EnvVar("v".into(), opt!(t!())) });
                let y = many!(if r.below(2) == 0 { RedirectOrCmdWord::Redirect(t!()) } else { RedirectOrCmdWord::CmdWord(t!()) }); format!("{:?}", b.simple_command(x, y)) }
            4 => { let (x, y) = (group!(), many!(t!())); format!("{:?}", b.brace_group(x, y)) }
            5 => { let (x, y) = (group!(), many!(t!())); format!("{:?}", b.subshell(x, y)) }
            6 => { let (x, y) = (gb!(), many!(t!())); let k = r.below(2); format!("{:?}", b.loop_command(if k == 0 { LoopKind::While } else { LoopKind::Until }, x, y)) }
            7 => { let x = IfFragments { conditionals: many!(gb!()), else_branch: opt!(group!()) }; let y = many!(t!()); format!("{:?}", b.if_command(x, y)) }
            8 => { let x = ForFragments { var: "x".into(), var_comment: onl!(), words: opt!((nl!(), many!(t!()), onl!())), pre_body_comments: nl!(), body: group!() };
                let y = many!(t!()); format!("{:?}", b.for_command(x, y)) }
            9 => { let x = CaseFragments { word: t!(), post_word_comments: nl!(), in_comment: onl!(), post_arms_comments: nl!(),
                    arms: many!(CaseArm { patterns: CasePatternFragments { pre_pattern_comments: nl!(), pattern_alternatives: many!(t!()), pattern_comment: onl!() }, body: group!(), arm_comment: onl!() }) };
                let y = many!(t!()); format!("{:?}", b.case_command(x, y)) }
            10 => { let x = t!(); format!("{:?}", b.compound_command_into_pipeable(x)) }
            11 => { let (x, y) = (nl!(), t!()); let n = *r.pick(&["", "f"]); format!("{:?}", b.function_declaration(n.into(), x, y)) }
            12 => { let x = nl!(); format!("{:?}", b.comments(x)) }
            13 => { let x = match r.below(3) { 0 => ComplexWordKind::Concat(vec![]), 1 => ComplexWordKind::Single(WordKind::SingleQuoted(String::new())),
                    _ => ComplexWordKind::Concat(many!(WordKind::Simple(SimpleWordKind::Literal("l".into())))) }; format!("{:?}", b.word(x)) }
            _ => { let x = t!(); let fd = opt!(3u16); format!("{:?}", b.redirect(match r.below(8) {
                0 => RedirectKind::Read(fd, x), 1 => RedirectKind::Write(fd, x), 2 => RedirectKind::ReadWrite(fd, x), 3 => RedirectKind::Append(fd, x),
                4 => RedirectKind::Clobber(fd, x), 5 => RedirectKind::Heredoc(fd, x), 6 => RedirectKind::DupRead(fd, x), _ => RedirectKind::DupWrite(fd, x) })) }
        };
        out.push_str(&s); out.push('\n');
    }
    out
}
pub fn delegation(i: &Input, e: Entry, fail: usize, seed: u64) -> Result<(), String> {
    {
        let mk = || { let o = Rc::new(Obs::default()); o.logging.set(true); o.fail_at.set(fail * 3); o };
        let (o1, o2, o3) = (mk(), mk(), mk());
        let a = direct(&mut Tree(o1.clone()), seed);
        let mut t = Tree(o2.clone());
        let b = direct(&mut &mut t, seed);
        let c = direct(&mut Box::new(Tree(o3.clone())), seed);
        if a != b || *o1.log.borrow() != *o2.log.borrow() { return Err(format!("direct calls: `&mut B` differs from `B`: calls seen\n{:?}\n{:?}", o1.log, o2.log)); }
        if a != c || *o1.log.borrow() != *o3.log.borrow() { return Err(format!("direct calls: `Box<B>` differs from `B`: calls seen\n{:?}\n{:?}", o1.log, o3.log)); }
    }
    let mk = || { let o = Rc::new(Obs::default()); o.logging.set(true); o.fail_at.set(fail); o };
    let (o1, o2, o3) = (mk(), mk(), mk());
    let a = run_with(i, &[e], &o1, Tree(o1.clone()));
    let mut t = Tree(o2.clone());
    let b = run_with(i, &[e], &o2, &mut t);
    let c = run_with(i, &[e], &o3, Box::new(Tree(o3.clone())));
    if a != b || *o1.log.borrow() != *o2.log.borrow() { return Err("`&mut B` differs from `B`".into()); }
    if a != c || *o1.log.borrow() != *o3.log.borrow() { return Err("`Box<B>` differs from `B`".into()); }
    if fail == 0 {
        let d = run_default(i, &[e], 3);
        for x in &d {
            if x.res.as_ref().err().map_or(false, |s| s.starts_with("Custom")) { return Err("EmptyBuilder failed".into()); }
        }
        if a.len() != d.len() || a.iter().zip(&d).any(|(x, y)| x.res.is_ok() != y.res.is_ok() || (x.res.is_err() && x.res != y.res)) {
            return Err("EmptyBuilder does not accept the same inputs".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- default builder, directly
pub mod direct_string {
    use super::*;
    type DB = StringBuilder;
    type TW = cp::ast::TopLevelWord<String>;
    type TC = cp::ast::TopLevelCommand<String>;
    include!("direct.rs");
}
pub mod direct_rc {
    use super::*;
    type DB = RcBuilder;
    type TW = cp::ast::TopLevelWord<Rc<String>>;
    type TC = cp::ast::TopLevelCommand<Rc<String>>;
    include!("direct.rs");
}
pub mod direct_arc {
    use super::*;
    type DB = ArcBuilder;
    type TW = cp::ast::AtomicTopLevelWord<std::sync::Arc<String>>;
    type TC = cp::ast::AtomicTopLevelCommand<std::sync::Arc<String>>;
    include!("direct.rs");
}
pub fn build_word(v: u64) -> (String, String) {
    match v % 4 { 0 => direct_rc::build_word(v / 4), 1 => direct_arc::build_word(v / 4), _ => direct_string::build_word(v / 4) }
}
pub fn build_other(v: u64) -> (String, String) {
    match v % 4 { 0 => direct_rc::build_other(v / 4), 1 => direct_arc::build_other(v / 4), _ => direct_string::build_other(v / 4) }
}
#[allow(dead_code)]
fn _unused(_: Positional) {}
