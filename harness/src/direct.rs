/// Mostly few, sometimes more.
fn few(r: &mut crate::Rng, n: usize) -> usize { if r.below(8) == 0 { r.below(4 * n) } else { r.below(n) } }
fn arith(r: &mut crate::Rng, depth: usize) -> cp::ast::DefaultArithmetic {
    use cp::ast::Arithmetic::*;
    let v = r.pick(&["x", "y"]).to_string();
    if depth == 0 { return if r.below(2) == 0 { Var(v) } else { Literal(r.below(9) as isize) }; }
    let k = r.below(32);
    let mut a = |r: &mut crate::Rng| { let d = r.below(depth); Box::new(arith(r, d)) };
    match k {
        0 => Pow(a(r), a(r)), 1 => PostIncr(v), 2 => PostDecr(v), 3 => PreIncr(v), 4 => PreDecr(v), 5 => UnaryPlus(a(r)), 6 => UnaryMinus(a(r)),
        7 => LogicalNot(a(r)), 8 => BitwiseNot(a(r)), 9 => Mult(a(r), a(r)), 10 => Div(a(r), a(r)), 11 => Modulo(a(r), a(r)), 12 => Add(a(r), a(r)),
        13 => Sub(a(r), a(r)), 14 => ShiftLeft(a(r), a(r)), 15 => ShiftRight(a(r), a(r)), 16 => Less(a(r), a(r)), 17 => LessEq(a(r), a(r)),
        18 => Great(a(r), a(r)), 19 => GreatEq(a(r), a(r)), 20 => Eq(a(r), a(r)), 21 => NotEq(a(r), a(r)), 22 => BitwiseAnd(a(r), a(r)),
        23 => BitwiseXor(a(r), a(r)), 24 => BitwiseOr(a(r), a(r)), 25 => LogicalAnd(a(r), a(r)), 26 => LogicalOr(a(r), a(r)),
        27 => Ternary(a(r), a(r), a(r)), 28 => Assign(v, a(r)), 29 => Var(v), 30 => Literal(r.below(99) as isize),
        _ => { let n = few(r, 4); Sequence((0..n).map(|_| *a(r)).collect()) }
    }
}
fn cmds(r: &mut crate::Rng) -> Vec<TC> {
    let n = r.below(3);
    (0..n).map(|i| {
        let mut b = DB::new();
        let w = b.word(ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Literal(format!("c{}", i))))).unwrap();
        let c = b.simple_command(vec![], vec![RedirectOrCmdWord::CmdWord(w)]).unwrap();
        let c = b.pipeline(false, vec![(vec![], c)]).unwrap();
        let c = b.and_or_list(c, vec![]).unwrap();
        b.complete_command(vec![], c, SeparatorKind::Semi, None).unwrap()
    }).collect()
}
fn simple_frag(r: &mut crate::Rng, depth: usize) -> SimpleWordKind<TC> {
    use cp::ast::Parameter;
    match r.below(14) {
        0..=3 => SimpleWordKind::Literal(r.pick(&["", "a", "b c", "x", "some longer text of a word", "é"]).to_string()),
        4 => SimpleWordKind::Escaped(r.pick(&["", "$", "a"]).to_string()),
        5 => SimpleWordKind::Star,
        6 => SimpleWordKind::Question,
        7 => SimpleWordKind::SquareOpen,
        8 => SimpleWordKind::SquareClose,
        9 => SimpleWordKind::Tilde,
        10 => SimpleWordKind::Colon,
        11 => SimpleWordKind::Param(r.pick(&[Parameter::At, Parameter::Star, Parameter::Pound, Parameter::Question,
            Parameter::Dash, Parameter::Dollar, Parameter::Bang, Parameter::Positional(3), Parameter::Var("v".into())]).clone()),
        12 if depth > 0 => {
            let p = Parameter::Var("p".into());
            let b = r.below(2) == 0;
            let w = if r.below(2) == 0 { None } else { Some(complex(r, depth - 1)) };
            SimpleWordKind::Subst(Box::new(match r.below(11) {
                0 => ParameterSubstitutionKind::Command(CommandGroup { commands: cmds(r), trailing_comments: vec![] }),
                1 => ParameterSubstitutionKind::Len(p),
                2 => ParameterSubstitutionKind::Arith(if b { Some({ let d = r.below(4); arith(r, d) }) } else { None }),
                3 => ParameterSubstitutionKind::Default(b, p, w),
                4 => ParameterSubstitutionKind::Assign(b, p, w),
                5 => ParameterSubstitutionKind::Error(b, p, w),
                6 => ParameterSubstitutionKind::Alternative(b, p, w),
                7 => ParameterSubstitutionKind::RemoveSmallestSuffix(p, w),
                8 => ParameterSubstitutionKind::RemoveLargestSuffix(p, w),
                9 => ParameterSubstitutionKind::RemoveSmallestPrefix(p, w),
                _ => ParameterSubstitutionKind::RemoveLargestPrefix(p, w),
            }))
        }
        _ => SimpleWordKind::CommandSubst(CommandGroup { commands: cmds(r), trailing_comments: vec![] }),
    }
}
fn frag(r: &mut crate::Rng, depth: usize) -> WordKind<TC> {
    match r.below(6) {
        0..=2 => WordKind::Simple(simple_frag(r, depth)),
        3 => WordKind::SingleQuoted(r.pick(&["", "q", "r s", "a longer single quoted text"]).to_string()),
        _ => { let n = few(r, 4); WordKind::DoubleQuoted((0..n).map(|_| simple_frag(r, depth)).collect()) }
    }
}
fn complex(r: &mut crate::Rng, depth: usize) -> ComplexWordKind<TC> {
    if r.below(4) == 0 { ComplexWordKind::Single(frag(r, depth)) }
    else { let n = few(r, 6); ComplexWordKind::Concat((0..n).map(|_| frag(r, depth)).collect()) }
}
/// A random word passed to the default builder: (argument, result).
pub fn build_word(seed: u64) -> (String, String) {
    let mut r = crate::Rng(seed);
    let k = complex(&mut r, 2);
    let a = format!("{:?}", k);
    (a, format!("{:?}", DB::new().word(k)))
}
/// A random call of another method of the default builder: (arguments, result).
pub fn build_other(seed: u64) -> (String, String) {
    let mut g = crate::Rng(seed);
    let r = &mut g;
    let mut b = DB::new();
    let mut w = |r: &mut crate::Rng| { let k = complex(r, 1); DB::new().word(k).unwrap() };
    let nl = |r: &mut crate::Rng| { let n = few(r, 3); (0..n).map(|i| Newline(if i == 0 { Some("# c".into()) } else { None })).collect::<Vec<_>>() };
    let onl = |r: &mut crate::Rng| if r.below(2) == 0 { None } else { Some(Newline(None)) };
    let redir = |r: &mut crate::Rng, w: &mut dyn FnMut(&mut crate::Rng) -> TW| {
        let fd = if r.below(2) == 0 { None } else { Some(r.below(100) as u16) };
        let x = w(r);
        match r.below(8) {
            0 => RedirectKind::Read(fd, x), 1 => RedirectKind::Write(fd, x), 2 => RedirectKind::ReadWrite(fd, x),
            3 => RedirectKind::Append(fd, x), 4 => RedirectKind::Clobber(fd, x), 5 => RedirectKind::Heredoc(fd, x),
            6 => RedirectKind::DupRead(fd, x), _ => RedirectKind::DupWrite(fd, x),
        }
    };
    macro_rules! redirs { () => {{ let n = few(r, 3); (0..n).map(|_| { let k = redir(r, &mut w); DB::new().redirect(k).unwrap() }).collect::<Vec<_>>() }} }
    macro_rules! simple { () => {{ let x = w(r); DB::new().simple_command(vec![], vec![RedirectOrCmdWord::CmdWord(x)]).unwrap() }} }
    macro_rules! listable { () => {{ let bang = r.below(2) == 0; let n = 1 + few(r, 2); let v = (0..n).map(|_| (nl(r), simple!())).collect(); DB::new().pipeline(bang, v).unwrap() }} }
    macro_rules! command { () => {{ let l = listable!(); let mut b = DB::new(); let l = b.and_or_list(l, vec![]).unwrap(); b.complete_command(vec![], l, SeparatorKind::Semi, None).unwrap() }} }
    macro_rules! group { () => {{ let n = few(r, 3); CommandGroup { commands: (0..n).map(|_| command!()).collect(), trailing_comments: nl(r) } }} }
    macro_rules! fin { ($e:expr, $($a:expr),*) => {{ let s = String::new() $(+ &format!("{:?} ", $a))*; (s, format!("{:?}", $e)) }} }
    match r.below(14) {
        0 => {
            let (a, l, d) = (nl(r), listable!(), onl(r));
            let l = b.and_or_list(l, vec![]).unwrap();
            let s = *r.pick(&[SeparatorKind::Semi, SeparatorKind::Amp, SeparatorKind::Newline, SeparatorKind::Other]);
            fin!(b.complete_command(a.clone(), l.clone(), s, d.clone()), "complete", a, l, s, d)
        }
        1 => {
            let l = listable!();
            let n = few(r, 3);
            let v: Vec<_> = (0..n).map(|_| { let l = listable!(); (nl(r), if r.below(2) == 0 { AndOr::And(l) } else { AndOr::Or(l) }) }).collect();
            fin!(b.and_or_list(l.clone(), v.clone()), "andor", l, v)
        }
        2 => {
            let bang = r.below(2) == 0;
            let n = 1 + few(r, 3);
            let v: Vec<_> = (0..n).map(|_| (nl(r), simple!())).collect();
            fin!(b.pipeline(bang, v.clone()), "pipe", bang, v)
        }
        3 => {
            let n = few(r, 3);
            let a: Vec<_> = (0..n).map(|_| if r.below(3) == 0 {
                let k = redir(r, &mut w);
                RedirectOrEnvVar::Redirect(DB::new().redirect(k).unwrap())
            } else { RedirectOrEnvVar::EnvVar("v".to_string(), if r.below(2) == 0 { None } else { Some(w(r)) }) }).collect();
            let n = few(r, 3);
            let c: Vec<_> = (0..n).map(|_| if r.below(3) == 0 {
                let k = redir(r, &mut w);
                RedirectOrCmdWord::Redirect(DB::new().redirect(k).unwrap())
            } else { RedirectOrCmdWord::CmdWord(w(r)) }).collect();
            fin!(b.simple_command(a.clone(), c.clone()), "simple", a, c)
        }
        4 => { let (g, x) = (group!(), redirs!()); fin!(b.brace_group(g.clone(), x.clone()), "brace", g, x) }
        5 => { let (g, x) = (group!(), redirs!()); fin!(b.subshell(g.clone(), x.clone()), "subshell", g, x) }
        6 => {
            let k = if r.below(2) == 0 { LoopKind::While } else { LoopKind::Until };
            let g = GuardBodyPairGroup { guard: group!(), body: group!() };
            let x = redirs!();
            fin!(b.loop_command(k, g.clone(), x.clone()), "loop", k, g, x)
        }
        7 => {
            let n = 1 + few(r, 2);
            let f = IfFragments {
                conditionals: (0..n).map(|_| GuardBodyPairGroup { guard: group!(), body: group!() }).collect(),
                else_branch: if r.below(2) == 0 { None } else { Some(group!()) },
            };
            let x = redirs!();
            fin!(b.if_command(f.clone(), x.clone()), "if", f, x)
        }
        8 => {
            let n = few(r, 3);
            let f = ForFragments {
                var: "v".into(), var_comment: onl(r),
                words: if r.below(2) == 0 { None } else { Some((nl(r), (0..n).map(|_| w(r)).collect(), onl(r))) },
                pre_body_comments: nl(r), body: group!(),
            };
            let x = redirs!();
            fin!(b.for_command(f.clone(), x.clone()), "for", f, x)
        }
        9 => {
            let n = few(r, 3);
            let arms = (0..n).map(|_| CaseArm {
                patterns: CasePatternFragments { pre_pattern_comments: nl(r), pattern_alternatives: vec![w(r), w(r)], pattern_comment: onl(r) },
                body: group!(), arm_comment: onl(r),
            }).collect();
            let f = CaseFragments { word: w(r), post_word_comments: nl(r), in_comment: onl(r), arms, post_arms_comments: nl(r) };
            let x = redirs!();
            fin!(b.case_command(f.clone(), x.clone()), "case", f, x)
        }
        10 => { let (g, x) = (group!(), redirs!()); let c = DB::new().brace_group(g, x).unwrap(); fin!(b.compound_command_into_pipeable(c.clone()), "compound", c) }
        11 => {
            let (g, x, n) = (group!(), redirs!(), nl(r));
            let c = DB::new().subshell(g, x).unwrap();
            fin!(b.function_declaration("f".into(), n.clone(), c.clone()), "function", n, c)
        }
        12 => { let n = nl(r); fin!(b.comments(n.clone()), "comments", n) }
        _ => { let k = redir(r, &mut w); fin!(b.redirect(k.clone()), "redirect", k) }
    }
}
/// Displayed forms: parameters are read back, positions and errors show what they carry.
pub fn display(name: &str, var: u64) -> Result<(), String> {
    use cp::ast::Parameter;
    use cp::ast::{ComplexWord, SimpleWord, Word};
    use cp::parse::{ParseError, SourcePos};
    let mut r = crate::Rng(var | 1);
    let num = |r: &mut crate::Rng| { let m = *r.pick(&[10u64, 20, 300, 70000, 1 << 33]); (r.next() >> 9) % m };
    let names = ["x", "_", "foo", "a1", "A_b9", "é", "if", "done", "_0", "ß9é", "a_very_long_name_indeed_0123456789"];
    let first = name.chars().next().map_or(false, |c| c == '_' || c.is_alphabetic());
    let name = if first && name.chars().all(|c| c == '_' || c.is_alphabetic() || c.is_ascii_digit()) { name } else { *r.pick(&names) };
    for k in 0..9 {
        let p: Parameter<String> = match k {
            0 => Parameter::At, 1 => Parameter::Star, 2 => Parameter::Pound, 3 => Parameter::Question, 4 => Parameter::Dash,
            5 => Parameter::Dollar, 6 => Parameter::Bang, 7 => Parameter::Positional(num(&mut r) as u32), _ => Parameter::Var(name.to_string()),
        };
        let s = p.to_string();
        let w = cp::parse::DefaultParser::new(cp::lexer::Lexer::new(s.chars())).word();
        let got = match &w {
            Ok(Some(cp::ast::TopLevelWord(ComplexWord::Single(Word::Simple(SimpleWord::Param(q)))))) => *q == p,
            _ => false,
        };
        if !got { return Err(format!("{:?} is displayed as {:?}, which is read as {:?}", p, s, w)); }
    }
    let mut pos = || SourcePos { byte: num(&mut r) as usize, line: num(&mut r) as usize, col: num(&mut r) as usize };
    let ps: Vec<SourcePos> = (0..2).map(|_| pos()).collect();
    let at = |p: &SourcePos| format!("{}:{}", p.line, p.col);
    for p in &ps { if p.to_string() != at(p) { return Err(format!("{:?} is displayed as {:?}", p, p.to_string())); } }
    let toks = [Token::Newline, Token::DSemi, Token::DLessDash, Token::Whitespace(" \t".into()), Token::Name("fi".into()), Token::Literal("{}x".into()),
        Token::CurlyOpen, Token::ParamPositional(cp::token::Positional::Seven), Token::Backslash, Token::Clobber];
    let t = r.pick(&toks).clone();
    let (a, b) = (ps[0], ps[1]);
    let cases: Vec<(ParseError<String>, Vec<String>)> = vec![
        (ParseError::BadFd(a, b), vec![at(&a), at(&b)]),
        (ParseError::BadIdent("9id".into(), a), vec![at(&a), "9id".into()]),
        (ParseError::BadSubst(t.clone(), a), vec![at(&a), t.to_string()]),
        (ParseError::Unmatched(t.clone(), a), vec![at(&a), t.to_string()]),
        (ParseError::IncompleteCmd("until", a, "dxone", b), vec![at(&a), at(&b), "until".into(), "dxone".into()]),
        (ParseError::Unexpected(t.clone(), a), vec![at(&a), if t == Token::Newline { String::new() } else { t.to_string() }]),
        (ParseError::Custom("{custom}".into()), vec!["{custom}".into()]),
    ];
    for (e, want) in cases {
        let s = e.to_string();
        if let Some(w) = want.iter().find(|w| !s.contains(&***w)) { return Err(format!("{:?} is displayed as {:?}, without {:?}", e, s, w)); }
    }
    if ParseError::UnexpectedEOF::<String>.to_string().is_empty() { return Err("an error is displayed as nothing".into()); }
    Ok(())
}
