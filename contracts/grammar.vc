### ------------------------------------------------------------------ the grammar
### What every function of the parser computes, as a function of the tokens ahead and of the state of
### the builder: its value (or its error) and the tokens and the builder's state after it. These
### functions are the specification of C13, C15, C16, C17, C22, C23 and C24; the contracts below say
### that the code computes exactly them. Builder results are those of the `_of` functions of the
### builder's contract, so a statement about them is a statement about the arguments the builder gets.
### (`X_from(acc, p)` is a repetition which has found `acc` so far. The `lt`/`leq` conditions are there for
### the termination of the definitions only: the contracts show them to hold, no parser call ever gets
### more tokens than its caller.)
@mod parse
pub mod gg {
use vstd::prelude::*;
use crate::vf::*;
use crate::gr::*;
use crate::token::{Token, Positional, is_delim, tstr};
use crate::ast::{self, AndOr, Parameter, DefaultParameter, DefaultArithmetic, RedirectOrEnvVar, RedirectOrCmdWord};
use crate::ast::builder::{self, Builder, Newline, CommandGroup, GuardBodyPairGroup, IfFragments, ForFragments, CaseFragments, CaseArm, CasePatternFragments, SeparatorKind, LoopKind, ComplexWordKind, WordKind, SimpleWordKind, ParameterSubstitutionKind, RedirectKind};
use crate::parse::{ParseError, CompoundCmdKeyword, SourcePos, FOR, CASE, IF, WHILE, UNTIL, DO, DONE, IN, THEN, ELIF, ELSE, FI, ESAC, FUNCTION};
use crate::parse::{unexpected, parameter_of, compound_kind, res_tok_err, a_seq, num_of, numeric_word};
use crate::parse::hd::*;
use crate::parse::iter::{bal_run, bal_init, fst, inter, strip, put_back};

pub type R<T, E> = Result<(T, PS), ParseError<E>>;
pub open spec fn lt(q: PS, p: PS) -> bool { ntoks(q.s.items) < ntoks(p.s.items) }
pub open spec fn leq(q: PS, p: PS) -> bool { ntoks(q.s.items) <= ntoks(p.s.items) }
/// `p`, with other tokens ahead.
pub open spec fn at(p: PS, s: St) -> PS { PS { s, b: p.b } }
/// What follows from the result of a builder's method.
pub open spec fn built<T, E>(r: (Result<T, E>, BState), s: St) -> R<T, E> {
    match r.0 { Ok(v) => Ok((v, PS { s, b: r.1 })), Err(e) => Err(ParseError::Custom(e)) }
}
/// `r` and `q` are the value `g` says, and the state after it.
pub open spec fn gives<T, E>(r: Result<T, ParseError<E>>, q: PS, g: R<T, E>) -> bool {
    match g { Ok((v, q1)) => r == Ok::<T, ParseError<E>>(v) && q == q1, Err(_) => r is Err }
}
/// `r` is the error `g` says, if it says that there is one.
pub open spec fn fails<T, E>(r: Result<T, ParseError<E>>, g: R<T, E>) -> bool {
    match g { Ok(_) => true, Err(e) => r == Err::<T, ParseError<E>>(e) }
}
/// Both.
pub open spec fn is<T, E>(r: Result<T, ParseError<E>>, q: PS, g: R<T, E>) -> bool {
    match g { Ok((v, q1)) => r == Ok::<T, ParseError<E>>(v) && q == q1, Err(e) => r == Err::<T, ParseError<E>>(e) }
}
pub open spec fn some<T, E>(r: R<T, E>) -> R<Option<T>, E> {
    match r { Ok((v, q)) => Ok((Some(v), q)), Err(e) => Err(e) }
}

/// ---- words
pub open spec fn as_word<C>(w: Seq<WordKind<C>>) -> Option<ComplexWordKind<C>> {
    if w.len() == 0 { None } else if w.len() == 1 { Some(ComplexWordKind::Single(w[0])) } else { Some(ComplexWordKind::Concat(mk_vec(w))) }
}
/// The fragment a token is on its own.
pub open spec fn plain<C>(t: Token) -> SimpleWordKind<C> {
    match t {
        Token::Star => SimpleWordKind::Star,
        Token::Question => SimpleWordKind::Question,
        Token::Tilde => SimpleWordKind::Tilde,
        Token::SquareOpen => SimpleWordKind::SquareOpen,
        Token::SquareClose => SimpleWordKind::SquareClose,
        Token::Colon => SimpleWordKind::Colon,
        t => SimpleWordKind::Literal(mk_string(tstr(t))),
    }
}
#[verifier::opaque]
pub open spec fn g_word_from<B: Builder>(delim: Option<Token>, words: Seq<WordKind<B::Command>>, p: PS) -> R<Seq<WordKind<B::Command>>, B::Error>
    decreases ntoks(p.s.items), 20nat,
{
    let a = after(p.s);
    match head(p.s) {
        None => Ok((words, p)),
        Some(t) =>
            if delim == Some(t) { Ok((words, p)) }
            else if t is Backtick {
                match g_backticked_raw::<B>(p) {
                    Ok((w, q)) => if lt(q, p) { g_word_from::<B>(delim, words.push(WordKind::Simple(w)), q) } else { arbitrary() },
                    Err(e) => Err(e),
                }
            } else if t is Dollar || t is ParamPositional {
                match g_parameter_raw::<B>(p) {
                    Ok((w, q)) => if lt(q, p) { g_word_from::<B>(delim, words.push(WordKind::Simple(w)), q) } else { arbitrary() },
                    Err(e) => Err(e),
                }
            } else if is_delim(t) { Ok((words, p)) }
            else if t is Backslash {
                match head(a) {
                    None => Ok((words, at(p, a))),
                    Some(Token::Newline) => Ok((words, at(p, after(a)))),
                    Some(u) => if lt(at(p, after(a)), p) {
                        g_word_from::<B>(delim, words.push(WordKind::Simple(SimpleWordKind::Escaped(mk_string(tstr(u))))), at(p, after(a)))
                    } else { arbitrary() },
                }
            } else if t is SingleQuote {
                let n = bal_run(bal_init(a, Some((Token::SingleQuote, p.s.pos))));
                match n.err {
                    Some(e) => Err(ParseError::Unmatched(e.0, e.1)),
                    None => if lt(at(p, n.end.st), p) {
                        g_word_from::<B>(delim, words.push(WordKind::SingleQuoted(mk_string(cat(fst(n.toks))))), at(p, n.end.st))
                    } else { arbitrary() },
                }
            } else if lt(at(p, a), p) {
                if t is DoubleQuote {
                    match g_interp_from::<B>(Some((Token::DoubleQuote, Token::DoubleQuote)), p.s.pos, Seq::empty(), Seq::empty(), at(p, a)) {
                        Ok((w, q)) => if lt(q, p) { g_word_from::<B>(delim, words.push(WordKind::DoubleQuoted(mk_vec(w))), q) } else { arbitrary() },
                        Err(e) => Err(e),
                    }
                } else { g_word_from::<B>(delim, words.push(WordKind::Simple(plain(t))), at(p, a)) }
            } else { arbitrary() }
    }
}
pub open spec fn word_end<C, E>(r: R<Seq<WordKind<C>>, E>) -> R<Option<ComplexWordKind<C>>, E> {
    match r { Ok((w, q)) => Ok((as_word(w), q)), Err(e) => Err(e) }
}
/// A word ends in front of a delimiter (or of `delim`); a `#` in front is a comment.
#[verifier::opaque]
pub open spec fn g_word_delim<B: Builder>(delim: Option<Token>, p: PS) -> R<Option<ComplexWordKind<B::Command>>, B::Error>
    decreases ntoks(p.s.items), 21nat,
{
    let s = skip(p.s);
    if head(s) == Some(Token::Pound) { Ok((None, at(p, s))) }
    else if leq(at(p, s), p) {
        word_end(g_word_from::<B>(delim, Seq::empty(), at(p, s)))
    } else { arbitrary() }
}
#[verifier::opaque]
pub open spec fn g_word_keep<B: Builder>(p: PS) -> R<Option<B::Word>, B::Error>
    decreases ntoks(p.s.items), 24nat,
{
    match g_word_delim::<B>(None, p) {
        Ok((Some(w), q)) => some(built(B::word_of(q.b, w), q.s)),
        Ok((None, q)) => Ok((None, q)),
        Err(e) => Err(e),
    }
}
#[verifier::opaque]
pub open spec fn g_word<B: Builder>(p: PS) -> R<Option<B::Word>, B::Error>
    decreases ntoks(p.s.items), 26nat,
{
    match g_word_keep::<B>(p) {
        Ok((w, q)) => Ok((w, at(q, skip(q.s)))),
        Err(e) => Err(e),
    }
}
/// Adds pending literal text to the fragments.
pub open spec fn flush<C>(words: Seq<SimpleWordKind<C>>, buf: Seq<char>) -> Seq<SimpleWordKind<C>> {
    if buf.len() == 0 { words } else { words.push(SimpleWordKind::Literal(mk_string(buf))) }
}
/// What a backslash escapes within double quotes (or up to `close`).
pub open spec fn interp_special(t: Option<Token>, close: Option<Token>) -> bool {
    t == Some(Token::Dollar) || t == Some(Token::Backtick) || t == Some(Token::DoubleQuote) || t == Some(Token::Backslash)
        || t == Some(Token::Newline) || (close is Some && t == close)
}
#[verifier::opaque]
pub open spec fn g_interp_from<B: Builder>(delim: Option<(Token, Token)>, start: SourcePos, words: Seq<SimpleWordKind<B::Command>>, buf: Seq<char>, p: PS) -> R<Seq<SimpleWordKind<B::Command>>, B::Error>
    decreases ntoks(p.s.items), 18nat,
{
    let close = match delim { Some(d) => Some(d.1), None => None };
    let a = after(p.s);
    if head(p.s) == close { Ok((flush(words, buf), at(p, a))) }
    else {
        match head(p.s) {
            None => match delim { Some(d) => Err(ParseError::Unmatched(d.0, start)), None => arbitrary() },
            Some(t) =>
                if t is Dollar || t is ParamPositional {
                    match g_parameter_raw::<B>(p) {
                        Ok((w, q)) => if lt(q, p) { g_interp_from::<B>(delim, start, flush(words, buf).push(w), Seq::empty(), q) } else { arbitrary() },
                        Err(e) => Err(e),
                    }
                } else if t is Backtick {
                    match g_backticked_raw::<B>(p) {
                        Ok((w, q)) => if lt(q, p) { g_interp_from::<B>(delim, start, flush(words, buf).push(w), Seq::empty(), q) } else { arbitrary() },
                        Err(e) => Err(e),
                    }
                } else if t is Backslash && interp_special(head(a), close) {
                    if lt(at(p, after(a)), p) {
                        g_interp_from::<B>(delim, start, flush(words, buf).push(SimpleWordKind::Escaped(mk_string(tstr(head(a)->0)))), Seq::empty(), at(p, after(a)))
                    } else { arbitrary() }
                } else if lt(at(p, a), p) {
                    g_interp_from::<B>(delim, start, words, buf + tstr(t), at(p, a))
                } else { arbitrary() }
        }
    }
}
#[verifier::opaque]
pub open spec fn g_backticked_raw<B: Builder>(p: PS) -> R<SimpleWordKind<B::Command>, B::Error>
    decreases ntoks(p.s.items), 14nat,
{
    if head(p.s) == Some(Token::Backtick) {
        let a = after(p.s);
        let n = bal_run(bal_init(a, Some((Token::Backtick, p.s.pos))));
        let c = at(p, put_back(strip(n.toks), a.pos, St { items: Seq::empty(), pos: n.end.pos }));
        match n.err {
            Some(e) => Err(ParseError::Unmatched(e.0, e.1)),
            None => if lt(c, p) {
                match g_group_internal::<B>(Seq::empty(), Seq::empty(), Seq::empty(), c) {
                    Ok((g, q)) => Ok((SimpleWordKind::CommandSubst(g), at(q, n.end.st))),
                    Err(e) => Err(e),
                }
            } else { arbitrary() },
        }
    } else { Err(unexpected(p.s)) }
}
#[verifier::opaque]
pub open spec fn g_backticked<B: Builder>(p: PS) -> R<B::Word, B::Error>
    decreases ntoks(p.s.items), 16nat,
{
    match g_backticked_raw::<B>(p) {
        Ok((w, q)) => built(B::word_of(q.b, ComplexWordKind::Single(WordKind::Simple(w))), q.s),
        Err(e) => Err(e),
    }
}

/// ---- parameters
/// The number of a `$0`-`$9` token.
pub open spec fn pos_num(n: Positional) -> u32 {
    match n {
        Positional::Zero => 0,
        Positional::One => 1,
        Positional::Two => 2,
        Positional::Three => 3,
        Positional::Four => 4,
        Positional::Five => 5,
        Positional::Six => 6,
        Positional::Seven => 7,
        Positional::Eight => 8,
        Positional::Nine => 9,
    }
}
#[verifier::opaque]
pub open spec fn g_parameter_raw<B: Builder>(p: PS) -> R<SimpleWordKind<B::Command>, B::Error>
    decreases ntoks(p.s.items), 14nat,
{
    let a = after(p.s);
    match head(p.s) {
        None => Err(ParseError::UnexpectedEOF),
        Some(Token::ParamPositional(n)) => Ok((SimpleWordKind::Param(Parameter::Positional(pos_num(n))), at(p, a))),
        Some(Token::Dollar) => match head(a) {
            Some(Token::Star) | Some(Token::Pound) | Some(Token::Question) | Some(Token::Dollar) | Some(Token::Bang)
            | Some(Token::Dash) | Some(Token::At) | Some(Token::Name(_)) => match parameter_of::<B::Error>(a) {
                (Ok(v), s) => Ok((SimpleWordKind::Param(v), at(p, s))),
                (Err(e), _) => Err(e),
            },
            Some(Token::ParenOpen) | Some(Token::CurlyOpen) => if lt(at(p, a), p) { g_param_subst::<B>(at(p, a)) } else { arbitrary() },
            _ => Ok((SimpleWordKind::Literal(mk_string(tstr(Token::Dollar))), at(p, a))),
        },
        Some(t) => Err(ParseError::Unexpected(t, p.s.pos)),
    }
}
#[verifier::opaque]
pub open spec fn g_parameter<B: Builder>(p: PS) -> R<B::Word, B::Error>
    decreases ntoks(p.s.items), 16nat,
{
    match g_parameter_raw::<B>(p) {
        Ok((w, q)) => built(B::word_of(q.b, ComplexWordKind::Single(WordKind::Simple(w))), q.s),
        Err(e) => Err(e),
    }
}
/// What is not part of an ordinary word, but is literal text within `${...}`.
pub open spec fn taken(t: Token) -> bool { t is Pound || is_delim(t) }
#[verifier::opaque]
pub open spec fn g_subst_from<B: Builder>(words: Seq<WordKind<B::Command>>, p: PS) -> R<Seq<WordKind<B::Command>>, B::Error>
    decreases ntoks(p.s.items), 22nat,
{
    let a = after(p.s);
    match head(p.s) {
        None => Ok((words, p)),
        Some(t) =>
            if t is CurlyClose { Ok((words, p)) }
            else if t is Backslash && head(a) == Some(Token::Newline) {
                if lt(at(p, after(a)), p) {
                    g_subst_from::<B>(words.push(WordKind::Simple(SimpleWordKind::Escaped(mk_string(tstr(Token::Newline))))), at(p, after(a)))
                } else { arbitrary() }
            } else if taken(t) {
                if lt(at(p, a), p) {
                    g_subst_from::<B>(words.push(WordKind::Simple(SimpleWordKind::Literal(mk_string(tstr(t))))), at(p, a))
                } else { arbitrary() }
            } else {
                match g_word_delim::<B>(Some(Token::CurlyClose), p) {
                    Ok((Some(ComplexWordKind::Single(w)), q)) => if lt(q, p) { g_subst_from::<B>(words.push(w), q) } else { arbitrary() },
                    Ok((Some(ComplexWordKind::Concat(w)), q)) => if lt(q, p) { g_subst_from::<B>(words + w@, q) } else { arbitrary() },
                    Ok((None, q)) => Ok((words, q)),
                    Err(e) => Err(e),
                }
            }
    }
}
/// The word of a substitution, up to and with the closing `}`.
#[verifier::opaque]
pub open spec fn g_subst_word<B: Builder>(open: SourcePos, p: PS) -> R<Option<ComplexWordKind<B::Command>>, B::Error>
    decreases ntoks(p.s.items), 23nat,
{
    match g_subst_from::<B>(Seq::empty(), p) {
        Ok((w, q)) => if head(q.s) == Some(Token::CurlyClose) { Ok((as_word(w), at(q, after(q.s)))) } else { Err(ParseError::Unmatched(Token::CurlyOpen, open)) },
        Err(e) => Err(e),
    }
}
/// What `${param op word}` means; `${#-}` and `${#?}` are lengths.
pub open spec fn subst_op<W, C>(colon: bool, param: DefaultParameter, op: Token, word: Option<W>) -> ParameterSubstitutionKind<W, C> {
    if param is Pound && !colon && word is None && op is Dash { ParameterSubstitutionKind::Len(Parameter::Dash) }
    else if param is Pound && !colon && word is None && op is Question { ParameterSubstitutionKind::Len(Parameter::Question) }
    else {
        match op {
            Token::Dash => ParameterSubstitutionKind::Default(colon, param, word),
            Token::Equals => ParameterSubstitutionKind::Assign(colon, param, word),
            Token::Question => ParameterSubstitutionKind::Error(colon, param, word),
            _ => ParameterSubstitutionKind::Alternative(colon, param, word),
        }
    }
}
pub open spec fn subst<T, C, E>(r: R<Option<ComplexWordKind<C>>, E>, f: spec_fn(Option<ComplexWordKind<C>>) -> ParameterSubstitutionKind<ComplexWordKind<C>, C>) -> R<SimpleWordKind<C>, E> {
    match r { Ok((w, q)) => Ok((SimpleWordKind::Subst(Box::new(f(w))), q)), Err(e) => Err(e) }
}
#[verifier::opaque]
pub open spec fn g_subst_body<B: Builder>(param: DefaultParameter, open: SourcePos, p: PS) -> R<SimpleWordKind<B::Command>, B::Error>
    decreases ntoks(p.s.items), 10nat,
{
    let colon = head(p.s) == Some(Token::Colon);
    let s = if colon { after(p.s) } else { p.s };
    match head(s) {
        None => Err(ParseError::Unmatched(Token::CurlyOpen, open)),
        Some(t) =>
            if t is CurlyClose && !colon { Ok((SimpleWordKind::Param(param), at(p, after(s)))) }
            else if t is Dash || t is Equals || t is Question || t is Plus {
                if lt(at(p, after(s)), p) {
                    match g_subst_word::<B>(open, at(p, after(s))) {
                        Ok((w, q)) => Ok((SimpleWordKind::Subst(Box::new(subst_op(colon, param, t, w))), q)),
                        Err(e) => Err(e),
                    }
                } else { arbitrary() }
            } else { Err(ParseError::BadSubst(t, s.pos)) }
    }
}
/// The rest of `$((...))`, after both opening parentheses.
pub open spec fn arith_of<E>(s: St) -> (Result<Option<DefaultArithmetic>, ParseError<E>>, St) {
    let w = skip(s);
    let r: (Result<Option<DefaultArithmetic>, ParseError<E>>, St) = if head(w) == Some(Token::ParenClose) { (Ok(None), w) } else {
        match a_seq::<E>(w) { (Ok(x), s1) => (Ok(Some(x)), s1), (Err(e), s1) => (Err(e), s1) }
    };
    if r.0 is Err { r } else {
        let c = skip(r.1);
        if head(c) != Some(Token::ParenClose) { (Err(unexpected(c)), c) } else {
            let d = skip(after(c));
            if head(d) != Some(Token::ParenClose) { (Err(unexpected(d)), d) } else { (r.0, after(d)) }
        }
    }
}
/// `${...}`, `$(...)` and `$((...))`, after the `$`.
#[verifier::opaque]
pub open spec fn g_param_subst<B: Builder>(p: PS) -> R<SimpleWordKind<B::Command>, B::Error>
    decreases ntoks(p.s.items), 12nat,
{
    let a = after(p.s);
    let open = p.s.pos;
    match head(p.s) {
        Some(Token::ParenOpen) =>
            if head(a) == Some(Token::ParenOpen) {
                match arith_of::<B::Error>(after(a)) {
                    (Ok(x), s) => Ok((SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Arith(x))), at(p, s))),
                    (Err(e), _) => Err(e),
                }
            } else {
                match g_subshell_internal::<B>(true, p) {
                    Ok((g, q)) => Ok((SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Command(g))), q)),
                    Err(e) => Err(e),
                }
            },
        Some(Token::CurlyOpen) => match parameter_of::<B::Error>(a) {
            (Err(e), _) => Err(e),
            (Ok(param), s) => {
                let b = after(s);
                if !lt(at(p, s), p) || !lt(at(p, b), p) || !lt(at(p, after(b)), p) { arbitrary() }
                else if head(s) == Some(Token::Percent) {
                    if head(b) == Some(Token::Percent) {
                        match g_subst_word::<B>(open, at(p, after(b))) {
                            Ok((w, q)) => Ok((SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::RemoveLargestSuffix(param, w))), q)),
                            Err(e) => Err(e),
                        }
                    } else {
                        match g_subst_word::<B>(open, at(p, b)) {
                            Ok((w, q)) => Ok((SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::RemoveSmallestSuffix(param, w))), q)),
                            Err(e) => Err(e),
                        }
                    }
                } else if head(s) == Some(Token::Pound) {
                    if head(b) == Some(Token::Pound) {
                        match g_subst_word::<B>(open, at(p, after(b))) {
                            Ok((w, q)) => Ok((SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::RemoveLargestPrefix(param, w))), q)),
                            Err(e) => Err(e),
                        }
                    } else {
                        match g_subst_word::<B>(open, at(p, b)) {
                            Ok((w, q)) => Ok((SimpleWordKind::Subst(Box::new(
                                if w is None && param is Pound { ParameterSubstitutionKind::Len(Parameter::Pound) }
                                else { ParameterSubstitutionKind::RemoveSmallestPrefix(param, w) })), q)),
                            Err(e) => Err(e),
                        }
                    }
                } else if param is Pound && !(head(s) matches Some(t) && (t is Colon || t is Dash || t is Equals || t is Question || t is Plus || t is CurlyClose)) {
                    match parameter_of::<B::Error>(s) {
                        (Err(e), _) => Err(e),
                        (Ok(x), c) => if head(c) == Some(Token::CurlyClose) {
                            Ok((SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Len(x))), at(p, after(c))))
                        } else { Err(unexpected(c)) },
                    }
                } else { g_subst_body::<B>(param, open, at(p, s)) }
            }
        },
        _ => Err(unexpected(p.s)),
    }
}

/// ---- redirects
/// The target of a redirect.
#[verifier::opaque]
pub open spec fn g_target<B: Builder>(dup: bool, p: PS) -> R<B::Word, B::Error>
    decreases ntoks(p.s.items), 28nat,
{
    let d = res_tok(p.s, seq![Token::Dash]);
    if dup && d.0 is Some {
        built(B::word_of(p.b, ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Literal(mk_string(tstr(Token::Dash)))))), after(d.1))
    } else {
        let s = if dup { d.1 } else { p.s };
        if !leq(at(p, s), p) { arbitrary() } else {
            match g_word_delim::<B>(None, at(p, s)) {
                Ok((Some(w), q)) => if dup && !numeric_word(w) { Err(ParseError::BadFd(s.pos, q.s.pos)) } else { built(B::word_of(q.b, w), q.s) },
                Ok((None, q)) => Err(unexpected(q.s)),
                Err(e) => Err(e),
            }
        }
    }
}
pub open spec fn redirect_kind<W>(t: Token, fd: Option<u16>, w: W) -> RedirectKind<W> {
    match t {
        Token::Less => RedirectKind::Read(fd, w),
        Token::Great => RedirectKind::Write(fd, w),
        Token::DGreat => RedirectKind::Append(fd, w),
        Token::Clobber => RedirectKind::Clobber(fd, w),
        Token::LessGreat => RedirectKind::ReadWrite(fd, w),
        Token::LessAnd => RedirectKind::DupRead(fd, w),
        _ => RedirectKind::DupWrite(fd, w),
    }
}
pub open spec fn is_redirect(t: Token) -> bool {
    t is Less || t is Great || t is DGreat || t is Clobber || t is LessGreat || t is LessAnd || t is GreatAnd
}
/// A redirect, or the word which is there instead.
#[verifier::opaque]
pub open spec fn g_redirect<B: Builder>(p: PS) -> R<Option<Result<B::Redirect, B::Word>>, B::Error>
    decreases ntoks(p.s.items), 30nat,
{
    match g_word_delim::<B>(None, p) {
        Err(e) => Err(e),
        Ok((w, q)) => {
            let n: Option<int> = match w { Some(w1) => num_of(w1), None => None };
            let fd: Option<u16> = match n { Some(v) => Some(v as u16), None => None };
            let a = skip(after(q.s));
            if !(w is Some && n is None) && (head(q.s) matches Some(t) && is_redirect(t)) {
                let t = head(q.s)->0;
                if !lt(at(q, a), p) { arbitrary() } else {
                    match g_target::<B>(t is LessAnd || t is GreatAnd, at(q, a)) {
                        Ok((x, q1)) => match built(B::redirect_of(q1.b, redirect_kind(t, fd, x)), q1.s) {
                            Ok((r, q2)) => Ok((Some(Ok(r)), q2)),
                            Err(e) => Err(e),
                        },
                        Err(e) => Err(e),
                    }
                }
            } else if !(w is Some && n is None) && (head(q.s) == Some(Token::DLess) || head(q.s) == Some(Token::DLessDash)) {
                if !leq(q, p) { arbitrary() } else {
                    match g_heredoc::<B>(fd, q) {
                        Ok((r, q2)) => Ok((Some(Ok(r)), q2)),
                        Err(e) => Err(e),
                    }
                }
            } else {
                match w {
                    Some(w1) => match built(B::word_of(q.b, w1), q.s) {
                        Ok((x, q2)) => Ok((Some(Err(x)), q2)),
                        Err(e) => Err(e),
                    },
                    None => Ok((None, q)),
                }
            }
        }
    }
}
pub open spec fn simples<C>(w: Seq<SimpleWordKind<C>>) -> Seq<WordKind<C>> { Seq::new(w.len(), |i: int| WordKind::Simple(w[i])) }
/// The word an expanded heredoc is.
pub open spec fn here_word<C>(w: Seq<SimpleWordKind<C>>) -> ComplexWordKind<C> {
    if w.len() == 0 { ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Literal(mk_string(Seq::empty())))) }
    else if w.len() == 1 { ComplexWordKind::Single(WordKind::Simple(w[0])) }
    else { ComplexWordKind::Concat(mk_vec(simples(w))) }
}
pub open spec fn here_redirect<B: Builder>(fd: Option<u16>, body: ComplexWordKind<B::Command>, q: PS) -> R<B::Redirect, B::Error> {
    match built(B::word_of(q.b, body), q.s) {
        Ok((x, q1)) => built(B::redirect_of(q1.b, RedirectKind::Heredoc(fd, x)), q1.s),
        Err(e) => Err(e),
    }
}
pub open spec fn here_end<B: Builder>(fd: Option<u16>, end: St, r: R<Seq<SimpleWordKind<B::Command>>, B::Error>) -> R<B::Redirect, B::Error> {
    match r { Ok((w, q)) => here_redirect::<B>(fd, here_word(w), at(q, end)), Err(e) => Err(e) }
}
#[verifier::opaque]
pub open spec fn g_heredoc<B: Builder>(fd: Option<u16>, p: PS) -> R<B::Redirect, B::Error>
    decreases ntoks(p.s.items), 28nat,
{
    if head(p.s) == Some(Token::DLess) || head(p.s) == Some(Token::DLessDash) {
        let tabs = head(p.s) == Some(Token::DLessDash);
        // the delimiter
        let dl = delim_toks(skip(after(p.s)));
        let dt = delim_of(dl.0);
        // the rest of the line, to be parsed after the heredoc
        let rl = rest_line(dl.2, true);
        let hb = here_body(rl.2, tabs, dt.0);
        let end = put_back(rl.0, dl.2.pos, hb.1);
        let c = at(p, put_back(hb.0, rl.2.pos, St { items: Seq::empty(), pos: rl.2.pos }));
        if dl.1 is Some { Err(ParseError::Unmatched((dl.1->0).0, (dl.1->0).1)) }
        else if dt.2 is Some { Err(ParseError::Unmatched((dt.2->0).0, (dt.2->0).1)) }
        // there has to be one
        else if dt.0.len() == 0 { Err(unexpected(dl.2)) }
        else if rl.1 is Some { Err(ParseError::Unmatched((rl.1->0).0, (rl.1->0).1)) }
        else if dt.1 {
            // quoted: literal text
            here_redirect::<B>(fd, ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Literal(mk_string(cat(fst(hb.0)))))), at(p, end))
        } else if lt(c, p) {
            here_end::<B>(fd, end, g_interp_from::<B>(None, rl.2.pos, Seq::empty(), Seq::empty(), c))
        } else { arbitrary() }
    } else { Err(unexpected(p.s)) }
}
#[verifier::opaque]
pub open spec fn g_redirects_from<B: Builder>(list: Seq<B::Redirect>, p: PS) -> R<Seq<B::Redirect>, B::Error>
    decreases ntoks(p.s.items), 32nat,
{
    let s = skip(p.s);
    if !leq(at(p, s), p) { arbitrary() } else {
        match g_redirect::<B>(at(p, s)) {
            Ok((Some(Ok(r)), q)) => if lt(q, p) { g_redirects_from::<B>(list.push(r), q) } else { arbitrary() },
            Ok((Some(Err(_)), q)) => Err(ParseError::BadFd(s.pos, q.s.pos)),
            Ok((None, q)) => Ok((list, q)),
            Err(e) => Err(e),
        }
    }
}
#[verifier::opaque]
pub open spec fn g_redirects<B: Builder>(p: PS) -> R<Vec<B::Redirect>, B::Error>
    decreases ntoks(p.s.items), 33nat,
{
    match g_redirects_from::<B>(Seq::empty(), p) { Ok((l, q)) => Ok((mk_vec(l), q)), Err(e) => Err(e) }
}

/// ---- simple commands
/// Assignments and redirects, and the command's name if there is one after them.
#[verifier::opaque]
pub open spec fn g_vars_from<B: Builder>(vars: Seq<RedirectOrEnvVar<B::Redirect, String, B::Word>>, p: PS) -> R<(Seq<RedirectOrEnvVar<B::Redirect, String, B::Word>>, Option<B::Word>), B::Error>
    decreases ntoks(p.s.items), 34nat,
{
    let s = skip(p.s);
    let v = after(after(s));
    if !leq(at(p, s), p) { arbitrary() }
    else if head(s) is Some && head(s)->0 is Name && head(after(s)) == Some(Token::Equals) {
        let n = head(s)->0->Name_0;
        if !lt(at(p, v), p) { arbitrary() }
        else if head(v) is Some && head(v)->0 is Whitespace { g_vars_from::<B>(vars.push(RedirectOrEnvVar::EnvVar(n, None)), at(p, v)) }
        else {
            match g_word::<B>(at(p, v)) {
                Ok((w, q)) => if lt(q, p) { g_vars_from::<B>(vars.push(RedirectOrEnvVar::EnvVar(n, w)), q) } else { arbitrary() },
                Err(e) => Err(e),
            }
        }
    } else {
        match g_redirect::<B>(at(p, s)) {
            Ok((Some(Ok(r)), q)) => if lt(q, p) { g_vars_from::<B>(vars.push(RedirectOrEnvVar::Redirect(r)), q) } else { arbitrary() },
            Ok((Some(Err(w)), q)) => Ok(((vars, Some(w)), q)),
            Ok((None, q)) => Ok(((vars, None), q)),
            Err(e) => Err(e),
        }
    }
}
/// Arguments and redirects.
#[verifier::opaque]
pub open spec fn g_args_from<B: Builder>(args: Seq<RedirectOrCmdWord<B::Redirect, B::Word>>, p: PS) -> R<Seq<RedirectOrCmdWord<B::Redirect, B::Word>>, B::Error>
    decreases ntoks(p.s.items), 34nat,
{
    match g_redirect::<B>(p) {
        Ok((Some(Ok(r)), q)) => if lt(q, p) { g_args_from::<B>(args.push(RedirectOrCmdWord::Redirect(r)), q) } else { arbitrary() },
        Ok((Some(Err(w)), q)) => if lt(q, p) { g_args_from::<B>(args.push(RedirectOrCmdWord::CmdWord(w)), q) } else { arbitrary() },
        Ok((None, q)) => Ok((args, q)),
        Err(e) => Err(e),
    }
}
pub open spec fn first_arg<R1, W>(w: Option<W>) -> Seq<RedirectOrCmdWord<R1, W>> {
    match w { Some(w) => seq![RedirectOrCmdWord::CmdWord(w)], None => Seq::empty() }
}
pub open spec fn simple_end<B: Builder>(vars: Seq<RedirectOrEnvVar<B::Redirect, String, B::Word>>, r: R<Seq<RedirectOrCmdWord<B::Redirect, B::Word>>, B::Error>) -> R<B::PipeableCommand, B::Error> {
    match r {
        Err(e) => Err(e),
        Ok((args, q1)) =>
            if vars.len() == 0 && args.len() == 0 { Err(unexpected(q1.s)) }
            else { built(B::simple_command_of(q1.b, mk_vec(vars), mk_vec(args)), q1.s) },
    }
}
#[verifier::opaque]
pub open spec fn g_simple<B: Builder>(p: PS) -> R<B::PipeableCommand, B::Error>
    decreases ntoks(p.s.items), 35nat,
{
    match g_vars_from::<B>(Seq::empty(), p) {
        Err(e) => Err(e),
        Ok(((vars, exec), q)) => if !leq(q, p) { arbitrary() } else {
            simple_end::<B>(vars, g_args_from::<B>(first_arg(exec), q))
        },
    }
}

/// ---- compound commands
#[verifier::opaque]
pub open spec fn g_subshell_internal<B: Builder>(empty_ok: bool, p: PS) -> R<CommandGroup<B::Command>, B::Error>
    decreases ntoks(p.s.items), 2nat,
{
    if head(p.s) != Some(Token::ParenOpen) { Err(unexpected(p.s)) }
    else if !lt(at(p, after(p.s)), p) { arbitrary() }
    else {
        match g_group_internal::<B>(Seq::empty(), Seq::empty(), seq![Token::ParenClose], at(p, after(p.s))) {
            Err(e) => Err(e),
            Ok((g, q)) =>
                if head(q.s) == Some(Token::ParenClose) && (empty_ok || g.commands@.len() > 0) { Ok((g, at(q, after(q.s)))) }
                else if head(q.s) is Some { Err(unexpected(q.s)) }
                else { Err(ParseError::Unmatched(Token::ParenOpen, p.s.pos)) },
        }
    }
}
/// A group of at least one command.
#[verifier::opaque]
pub open spec fn g_group<B: Builder>(words: Seq<&str>, tokens: Seq<Token>, exact: Seq<Token>, p: PS) -> R<CommandGroup<B::Command>, B::Error>
    decreases ntoks(p.s.items), 62nat,
{
    match g_group_internal::<B>(words, tokens, exact, p) {
        Ok((g, q)) => if g.commands@.len() == 0 { Err(unexpected(q.s)) } else { Ok((g, q)) },
        Err(e) => Err(e),
    }
}
#[verifier::opaque]
pub open spec fn g_do_group<B: Builder>(p: PS) -> R<CommandGroup<B::Command>, B::Error>
    decreases ntoks(p.s.items), 6nat,
{
    let s = skip(p.s);
    let k = res_word(s, seq![DO]);
    if k.0 is None { Err(unexpected(k.1)) }
    else if !lt(at(p, after(k.1)), p) { arbitrary() }
    else {
        match g_group::<B>(seq![DONE], Seq::empty(), Seq::empty(), at(p, after(k.1))) {
            Err(e) => Err(e),
            Ok((g, q)) => {
                let d = res_word(q.s, seq![DONE]);
                if d.0 is None { Err(ParseError::IncompleteCmd(DO, s.pos, DONE, d.1.pos)) } else { Ok((g, at(q, after(d.1)))) }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn g_brace_group<B: Builder>(p: PS) -> R<CommandGroup<B::Command>, B::Error>
    decreases ntoks(p.s.items), 6nat,
{
    let s = skip(p.s);
    let k = res_tok(s, seq![Token::CurlyOpen]);
    if k.0 is None { Err(res_tok_err(s, seq![Token::CurlyOpen])) }
    else if !lt(at(p, after(k.1)), p) { arbitrary() }
    else {
        match g_group::<B>(Seq::empty(), seq![Token::CurlyClose], Seq::empty(), at(p, after(k.1))) {
            Err(e) => Err(e),
            Ok((g, q)) => {
                let d = res_tok(q.s, seq![Token::CurlyClose]);
                if d.0 is None { Err(ParseError::Unmatched(Token::CurlyOpen, s.pos)) } else { Ok((g, at(q, after(d.1)))) }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn g_loop<B: Builder>(p: PS) -> R<(LoopKind, GuardBodyPairGroup<B::Command>), B::Error>
    decreases ntoks(p.s.items), 8nat,
{
    let s = skip(p.s);
    let k = res_word(s, seq![WHILE, UNTIL]);
    if k.0 is None { Err(unexpected(k.1)) }
    else if !lt(at(p, after(k.1)), p) { arbitrary() }
    else {
        let until = k.0->0 == UNTIL@;
        match g_group::<B>(seq![DO], Seq::empty(), Seq::empty(), at(p, after(k.1))) {
            Err(e) => Err(e),
            Ok((guard, q)) => {
                let d = res_word(q.s, seq![DO]);
                if d.0 is None { Err(ParseError::IncompleteCmd(if until { UNTIL } else { WHILE }, s.pos, DO, d.1.pos)) }
                else if !lt(at(q, d.1), p) { arbitrary() }
                else {
                    match g_do_group::<B>(at(q, d.1)) {
                        Err(e) => Err(e),
                        Ok((body, q1)) => Ok(((if until { LoopKind::Until } else { LoopKind::While }, GuardBodyPairGroup { guard, body }), q1)),
                    }
                }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn g_if_from<B: Builder>(start: SourcePos, conds: Seq<GuardBodyPairGroup<B::Command>>, p: PS) -> R<IfFragments<B::Command>, B::Error>
    decreases ntoks(p.s.items), 63nat,
{
    match g_group::<B>(seq![THEN], Seq::empty(), Seq::empty(), p) {
        Err(e) => Err(e),
        Ok((guard, q)) => {
            let t = res_word(q.s, seq![THEN]);
            if t.0 is None { Err(ParseError::IncompleteCmd(IF, start, THEN, t.1.pos)) }
            else if !lt(at(q, after(t.1)), p) { arbitrary() }
            else {
                match g_group::<B>(seq![ELIF, ELSE, FI], Seq::empty(), Seq::empty(), at(q, after(t.1))) {
                    Err(e) => Err(e),
                    Ok((body, q1)) => {
                        let k = res_word(q1.s, seq![ELIF, ELSE, FI]);
                        let all = conds.push(GuardBodyPairGroup { guard, body });
                        let r = at(q1, after(k.1));
                        if k.0 is None { Err(ParseError::IncompleteCmd(IF, start, FI, k.1.pos)) }
                        else if !lt(r, p) { arbitrary() }
                        else if k.0->0 == ELIF@ { g_if_from::<B>(start, all, r) }
                        else if k.0->0 == ELSE@ {
                            match g_group::<B>(seq![FI], Seq::empty(), Seq::empty(), r) {
                                Err(e) => Err(e),
                                Ok((els, q2)) => {
                                    let f = res_word(q2.s, seq![FI]);
                                    if f.0 is None { Err(ParseError::IncompleteCmd(IF, start, FI, f.1.pos)) }
                                    else { Ok((IfFragments { conditionals: mk_vec(all), else_branch: Some(els) }, at(q2, after(f.1)))) }
                                }
                            }
                        } else { Ok((IfFragments { conditionals: mk_vec(all), else_branch: None }, r)) }
                    }
                }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn g_if<B: Builder>(p: PS) -> R<IfFragments<B::Command>, B::Error>
    decreases ntoks(p.s.items), 8nat,
{
    let s = skip(p.s);
    let k = res_word(s, seq![IF]);
    if k.0 is None { Err(unexpected(k.1)) }
    else if !lt(at(p, after(k.1)), p) { arbitrary() }
    else { g_if_from::<B>(s.pos, Seq::empty(), at(p, after(k.1))) }
}
#[verifier::opaque]
pub open spec fn g_words_from<B: Builder>(words: Seq<B::Word>, p: PS) -> R<Seq<B::Word>, B::Error>
    decreases ntoks(p.s.items), 27nat,
{
    match g_word::<B>(p) {
        Ok((Some(w), q)) => if lt(q, p) { g_words_from::<B>(words.push(w), q) } else { arbitrary() },
        Ok((None, q)) => Ok((words, q)),
        Err(e) => Err(e),
    }
}
/// What is between the name and the body: the words (if there is an `in`) and comments.
#[verifier::opaque]
pub open spec fn g_for_words<B: Builder>(start: SourcePos, before: Seq<Newline>, p: PS) -> R<(Option<(Vec<Newline>, Vec<B::Word>, Option<Newline>)>, Vec<Newline>), B::Error>
    decreases ntoks(p.s.items), 28nat,
{
    let k = res_word(p.s, seq![IN]);
    if k.0 is Some {
        if !lt(at(p, after(k.1)), p) { arbitrary() } else {
            match g_words_from::<B>(Seq::empty(), at(p, after(k.1))) {
                Err(e) => Err(e),
                Ok((w, q)) => {
                    let semi = head(q.s) == Some(Token::Semi);
                    let n = newline_of(if semi { after(q.s) } else { q.s });
                    let l = lines_of(n.1);
                    if !semi && n.0 is None { Err(unexpected(n.1)) }
                    else { Ok(((Some((mk_vec(before), mk_vec(w), n.0)), mk_vec(l.0)), at(q, l.1))) }
                }
            }
        }
    } else if head(k.1) == Some(Token::Semi) {
        let l = lines_of(after(k.1));
        Ok(((None, mk_vec(before + l.0)), at(p, l.1)))
    } else {
        let d = res_word(k.1, seq![DO]);
        if d.0 is None { Err(ParseError::IncompleteCmd(FOR, start, IN, d.1.pos)) } else { Ok(((None, mk_vec(before)), at(p, d.1))) }
    }
}
#[verifier::opaque]
pub open spec fn g_for<B: Builder>(p: PS) -> R<ForFragments<B::Word, B::Command>, B::Error>
    decreases ntoks(p.s.items), 8nat,
{
    let s = skip(p.s);
    let k = res_word(s, seq![FOR]);
    if k.0 is None { Err(unexpected(k.1)) } else {
        let v = skip(after(k.1));
        match head(v) {
            Some(Token::Literal(l)) => Err(ParseError::BadIdent(l, v.pos)),
            Some(Token::Name(var)) => {
                let c = newline_of(after(v));
                let l = lines_of(c.1);
                if !lt(at(p, l.1), p) { arbitrary() } else {
                    match g_for_words::<B>(s.pos, l.0, at(p, l.1)) {
                        Err(e) => Err(e),
                        Ok(((words, pre), q)) => {
                            let d = res_word(q.s, seq![DO]);
                            if d.0 is None { Err(ParseError::IncompleteCmd(FOR, s.pos, DO, d.1.pos)) }
                            else if !lt(at(q, d.1), p) { arbitrary() }
                            else {
                                match g_do_group::<B>(at(q, d.1)) {
                                    Err(e) => Err(e),
                                    Ok((body, q1)) => Ok((ForFragments { var, var_comment: c.0, words, pre_body_comments: pre, body }, q1)),
                                }
                            }
                        }
                    }
                }
            }
            _ => Err(unexpected(v)),
        }
    }
}
/// The patterns of an arm, up to and with the `)`.
#[verifier::opaque]
pub open spec fn g_pats_from<B: Builder>(start: SourcePos, pats: Seq<B::Word>, p: PS) -> R<Seq<B::Word>, B::Error>
    decreases ntoks(p.s.items), 27nat,
{
    match g_word::<B>(p) {
        Err(e) => Err(e),
        Ok((None, q)) => Err(unexpected(q.s)),
        Ok((Some(w), q)) => match head(q.s) {
            Some(Token::Pipe) => if lt(at(q, after(q.s)), p) { g_pats_from::<B>(start, pats.push(w), at(q, after(q.s))) } else { arbitrary() },
            Some(Token::ParenClose) => Ok((pats.push(w), at(q, after(q.s)))),
            Some(_) => Err(unexpected(q.s)),
            None => Err(ParseError::IncompleteCmd(CASE, start, ESAC, q.s.pos)),
        },
    }
}
/// The arms of a `case` (and the comments in front of an `esac` where an arm could begin).
#[verifier::opaque]
pub open spec fn g_arms_from<B: Builder>(start: SourcePos, arms: Seq<CaseArm<B::Word, B::Command>>, p: PS) -> R<(Seq<CaseArm<B::Word, B::Command>>, Seq<Newline>), B::Error>
    decreases ntoks(p.s.items), 63nat,
{
    let l = lines_of(p.s);
    let k = res_word(l.1, seq![ESAC]);
    let s = if head(k.1) == Some(Token::ParenOpen) { after(k.1) } else { k.1 };
    if k.0 is Some { Ok(((arms, l.0), at(p, k.1))) }
    else if head(s) is None { Err(ParseError::IncompleteCmd(CASE, start, ESAC, s.pos)) }
    else if !leq(at(p, s), p) { arbitrary() }
    else {
        match g_pats_from::<B>(start, Seq::empty(), at(p, s)) {
            Err(e) => Err(e),
            Ok((pats, q)) => {
                let n = newline_of(q.s);
                if !lt(at(q, n.1), p) { arbitrary() } else {
                    match g_group_internal::<B>(seq![ESAC], Seq::empty(), seq![Token::DSemi], at(q, n.1)) {
                        Err(e) => Err(e),
                        Ok((body, q1)) => {
                            let patterns = CasePatternFragments { pre_pattern_comments: mk_vec(l.0), pattern_alternatives: mk_vec(pats), pattern_comment: n.0 };
                            let c = newline_of(after(q1.s));
                            if head(q1.s) == Some(Token::DSemi) {
                                if !lt(at(q1, c.1), p) { arbitrary() }
                                else { g_arms_from::<B>(start, arms.push(CaseArm { patterns, body, arm_comment: c.0 }), at(q1, c.1)) }
                            } else { Ok(((arms.push(CaseArm { patterns, body, arm_comment: None }), Seq::empty()), q1)) }
                        }
                    }
                }
            }
        }
    }
}
pub open spec fn or_none<T>(o: Option<Vec<T>>) -> Seq<T> { match o { Some(v) => v@, None => Seq::empty() } }
#[verifier::opaque]
pub open spec fn g_case<B: Builder>(p: PS) -> R<CaseFragments<B::Word, B::Command>, B::Error>
    decreases ntoks(p.s.items), 8nat,
{
    let s = skip(p.s);
    let k = res_word(s, seq![CASE]);
    if k.0 is None { Err(unexpected(k.1)) }
    else if !lt(at(p, after(k.1)), p) { arbitrary() }
    else {
        match g_word::<B>(at(p, after(k.1))) {
            Err(e) => Err(e),
            Ok((None, q)) => Err(unexpected(q.s)),
            Ok((Some(word), q)) => {
                let l = lines_of(q.s);
                let i = res_word(l.1, seq![IN]);
                let n = newline_of(after(i.1));
                if i.0 is None { Err(ParseError::IncompleteCmd(CASE, s.pos, IN, i.1.pos)) }
                else if !lt(at(q, n.1), p) { arbitrary() }
                else {
                    match g_arms_from::<B>(s.pos, Seq::empty(), at(q, n.1)) {
                        Err(e) => Err(e),
                        Ok(((arms, pre), q1)) => {
                            let m = lines_of(q1.s);
                            let f = res_word(m.1, seq![ESAC]);
                            if f.0 is None { Err(ParseError::IncompleteCmd(CASE, s.pos, ESAC, f.1.pos)) }
                            else {
                                Ok((CaseFragments { word, post_word_comments: mk_vec(l.0), in_comment: n.0, arms: mk_vec(arms), post_arms_comments: mk_vec(pre + m.0) }, at(q1, after(f.1))))
                            }
                        }
                    }
                }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn g_compound<B: Builder>(kw: Option<CompoundCmdKeyword>, p: PS) -> R<B::CompoundCommand, B::Error>
    decreases ntoks(p.s.items), 40nat,
{
    let s = match kw { Some(_) => p.s, None => skip(p.s) };
    let k = match kw { Some(k) => Some(k), None => compound_kind(s) };
    let p1 = at(p, s);
    if !leq(p1, p) { arbitrary() } else {
        match k {
            None => Err(unexpected(s)),
            Some(CompoundCmdKeyword::If) => match g_if::<B>(p1) {
                Err(e) => Err(e),
                Ok((c, q)) => if !leq(q, p) { arbitrary() } else { match g_redirects::<B>(q) {
                    Err(e) => Err(e),
                    Ok((io, q1)) => built(B::if_command_of(q1.b, c, io), q1.s),
                } },
            },
            Some(CompoundCmdKeyword::While) | Some(CompoundCmdKeyword::Until) => match g_loop::<B>(p1) {
                Err(e) => Err(e),
                Ok((c, q)) => if !leq(q, p) { arbitrary() } else { match g_redirects::<B>(q) {
                    Err(e) => Err(e),
                    Ok((io, q1)) => built(B::loop_command_of(q1.b, c.0, c.1, io), q1.s),
                } },
            },
            Some(CompoundCmdKeyword::For) => match g_for::<B>(p1) {
                Err(e) => Err(e),
                Ok((c, q)) => if !leq(q, p) { arbitrary() } else { match g_redirects::<B>(q) {
                    Err(e) => Err(e),
                    Ok((io, q1)) => built(B::for_command_of(q1.b, c, io), q1.s),
                } },
            },
            Some(CompoundCmdKeyword::Case) => match g_case::<B>(p1) {
                Err(e) => Err(e),
                Ok((c, q)) => if !leq(q, p) { arbitrary() } else { match g_redirects::<B>(q) {
                    Err(e) => Err(e),
                    Ok((io, q1)) => built(B::case_command_of(q1.b, c, io), q1.s),
                } },
            },
            Some(CompoundCmdKeyword::Brace) => match g_brace_group::<B>(p1) {
                Err(e) => Err(e),
                Ok((c, q)) => if !leq(q, p) { arbitrary() } else { match g_redirects::<B>(q) {
                    Err(e) => Err(e),
                    Ok((io, q1)) => built(B::brace_group_of(q1.b, c, io), q1.s),
                } },
            },
            Some(CompoundCmdKeyword::Subshell) => match g_subshell_internal::<B>(false, p1) {
                Err(e) => Err(e),
                Ok((c, q)) => if !leq(q, p) { arbitrary() } else { match g_redirects::<B>(q) {
                    Err(e) => Err(e),
                    Ok((io, q1)) => built(B::subshell_of(q1.b, c, io), q1.s),
                } },
            },
        }
    }
}

/// ---- functions
/// `)`, after blanks.
pub open spec fn close_paren<T, E>(v: T, p: PS) -> R<T, E> {
    let s = skip(p.s);
    if head(s) == Some(Token::ParenClose) { Ok((v, at(p, after(s)))) } else { Err(unexpected(s)) }
}
/// What is between a function's name and its body; with the body when that is a subshell right there.
#[verifier::opaque]
pub open spec fn g_fn_params<B: Builder>(found: bool, p: PS) -> R<Option<B::CompoundCommand>, B::Error>
    decreases ntoks(p.s.items), 34nat,
{
    if head(p.s) == Some(Token::ParenOpen) { close_paren(None, at(p, after(p.s))) }
    else if found && head(p.s) == Some(Token::Newline) { Ok((None, p)) }
    else if head(p.s) is Some && head(p.s)->0 is Whitespace {
        let s = skip(after(p.s));
        if !found {
            if head(s) == Some(Token::ParenOpen) { close_paren(None, at(p, after(s))) } else { Err(unexpected(s)) }
        } else if head(s) == Some(Token::ParenOpen) {
            if !lt(at(p, s), p) { arbitrary() } else {
                match g_subshell_internal::<B>(true, at(p, s)) {
                    Err(e) => Err(e),
                    Ok((g, q)) =>
                        if g.commands@.len() == 0 && g.trailing_comments@.len() == 0 { Ok((None, q)) }
                        else if !lt(q, p) { arbitrary() }
                        else {
                            match g_redirects::<B>(q) {
                                Err(e) => Err(e),
                                Ok((io, q1)) => some(built(B::subshell_of(q1.b, g, io), q1.s)),
                            }
                        },
                }
            }
        } else { Ok((None, at(p, s))) }
    } else { Err(unexpected(p.s)) }
}
#[verifier::opaque]
pub open spec fn g_fn_internal<B: Builder>(p: PS) -> R<(String, Vec<Newline>, B::CompoundCommand), B::Error>
    decreases ntoks(p.s.items), 44nat,
{
    let k = res_word(p.s, seq![FUNCTION]);
    let s = skip(if k.0 is Some { after(k.1) } else { k.1 });
    match head(s) {
        Some(Token::Literal(l)) => Err(ParseError::BadIdent(l, s.pos)),
        Some(Token::Name(name)) => if !lt(at(p, after(s)), p) { arbitrary() } else {
            match g_fn_params::<B>(k.0 is Some, at(p, after(s))) {
                Err(e) => Err(e),
                Ok((Some(c), q)) => Ok(((name, mk_vec(Seq::empty()), c), q)),
                Ok((None, q)) => {
                    let l = lines_of(q.s);
                    if !lt(at(q, l.1), p) { arbitrary() } else {
                        match g_compound::<B>(None, at(q, l.1)) {
                            Err(e) => Err(e),
                            Ok((c, q1)) => Ok(((name, mk_vec(l.0), c), q1)),
                        }
                    }
                }
            }
        },
        _ => Err(unexpected(s)),
    }
}
#[verifier::opaque]
pub open spec fn g_fn<B: Builder>(p: PS) -> R<B::PipeableCommand, B::Error>
    decreases ntoks(p.s.items), 46nat,
{
    match g_fn_internal::<B>(p) {
        Err(e) => Err(e),
        Ok((f, q)) => built(B::function_declaration_of(q.b, f.0, f.1, f.2), q.s),
    }
}
/// `function`, `name(` or `name (`
pub open spec fn fn_ahead(s: St) -> bool {
    head(s) is Some && head(s)->0 is Name && (head(after(s)) == Some(Token::ParenOpen)
        || (head(after(s)) is Some && head(after(s))->0 is Whitespace && head(after(after(s))) == Some(Token::ParenOpen)))
}
#[verifier::opaque]
pub open spec fn g_maybe_fn<B: Builder>(p: PS) -> R<Option<B::PipeableCommand>, B::Error>
    decreases ntoks(p.s.items), 48nat,
{
    let k = res_word(p.s, seq![FUNCTION]);
    if k.0 is Some || fn_ahead(k.1) {
        if leq(at(p, k.1), p) { some(g_fn::<B>(at(p, k.1))) } else { arbitrary() }
    } else { Ok((None, at(p, k.1))) }
}

/// ---- lists
#[verifier::opaque]
pub open spec fn g_command<B: Builder>(p: PS) -> R<B::PipeableCommand, B::Error>
    decreases ntoks(p.s.items), 50nat,
{
    let s = skip(p.s);
    let p1 = at(p, s);
    if !leq(p1, p) { arbitrary() } else {
        match compound_kind(s) {
            Some(k) => match g_compound::<B>(Some(k), p1) {
                Err(e) => Err(e),
                Ok((c, q)) => built(B::compound_command_into_pipeable_of(q.b, c), q.s),
            },
            None => match g_maybe_fn::<B>(p1) {
                Err(e) => Err(e),
                Ok((Some(f), q)) => Ok((f, q)),
                Ok((None, q)) => if leq(q, p) { g_simple::<B>(q) } else { arbitrary() },
            },
        }
    }
}
/// Commands and, for each but the last, the comments after the `|` that follows it.
#[verifier::opaque]
pub open spec fn g_pipe_from<B: Builder>(cmds: Seq<(Vec<Newline>, B::PipeableCommand)>, p: PS) -> R<Seq<(Vec<Newline>, B::PipeableCommand)>, B::Error>
    decreases ntoks(p.s.items), 52nat,
{
    let s = skip(p.s);
    if head(s) == Some(Token::Bang) { Err(unexpected(s)) }
    else if !leq(at(p, s), p) { arbitrary() }
    else {
        match g_command::<B>(at(p, s)) {
            Err(e) => Err(e),
            Ok((c, q)) => if head(q.s) == Some(Token::Pipe) {
                let l = lines_of(after(q.s));
                if lt(at(q, l.1), p) { g_pipe_from::<B>(cmds.push((mk_vec(l.0), c)), at(q, l.1)) } else { arbitrary() }
            } else { Ok((cmds.push((mk_vec(Seq::empty()), c)), q)) },
        }
    }
}
#[verifier::opaque]
pub open spec fn g_pipeline<B: Builder>(p: PS) -> R<B::ListableCommand, B::Error>
    decreases ntoks(p.s.items), 53nat,
{
    let s = skip(p.s);
    let bang = head(s) == Some(Token::Bang);
    let s1 = if bang { after(s) } else { s };
    if !leq(at(p, s1), p) { arbitrary() } else {
        match g_pipe_from::<B>(Seq::empty(), at(p, s1)) {
            Err(e) => Err(e),
            Ok((cmds, q)) => built(B::pipeline_of(q.b, bang, mk_vec(cmds)), q.s),
        }
    }
}
/// Every further pipeline, with its operator and the comments after that.
#[verifier::opaque]
pub open spec fn g_and_or_from<B: Builder>(rest: Seq<(Vec<Newline>, AndOr<B::ListableCommand>)>, p: PS) -> R<Seq<(Vec<Newline>, AndOr<B::ListableCommand>)>, B::Error>
    decreases ntoks(p.s.items), 54nat,
{
    let s = skip(p.s);
    if head(s) == Some(Token::AndIf) || head(s) == Some(Token::OrIf) {
        let l = lines_of(after(s));
        if !lt(at(p, l.1), p) { arbitrary() } else {
            match g_pipeline::<B>(at(p, l.1)) {
                Err(e) => Err(e),
                Ok((c, q)) => if !lt(q, p) { arbitrary() } else {
                    g_and_or_from::<B>(rest.push((mk_vec(l.0), if head(s) == Some(Token::AndIf) { AndOr::And(c) } else { AndOr::Or(c) })), q)
                },
            }
        }
    } else { Ok((rest, at(p, s))) }
}
#[verifier::opaque]
pub open spec fn g_and_or<B: Builder>(p: PS) -> R<B::CommandList, B::Error>
    decreases ntoks(p.s.items), 55nat,
{
    match g_pipeline::<B>(p) {
        Err(e) => Err(e),
        Ok((first, q)) => if !leq(q, p) { arbitrary() } else {
            match g_and_or_from::<B>(Seq::empty(), q) {
                Err(e) => Err(e),
                Ok((rest, q1)) => built(B::and_or_list_of(q1.b, first, mk_vec(rest)), q1.s),
            }
        },
    }
}
/// The separator that ends a command, and the newline or comment after it.
pub open spec fn separator_of(s: St) -> (SeparatorKind, Option<Newline>, St) {
    match head(s) {
        Some(Token::Semi) => (SeparatorKind::Semi, newline_of(after(s)).0, newline_of(after(s)).1),
        Some(Token::Amp) => (SeparatorKind::Amp, newline_of(after(s)).0, newline_of(after(s)).1),
        _ => (if newline_of(s).0 is Some { SeparatorKind::Newline } else { SeparatorKind::Other }, newline_of(s).0, newline_of(s).1),
    }
}
/// A complete command, given the comments in front of it.
#[verifier::opaque]
pub open spec fn g_complete_with<B: Builder>(comments: Vec<Newline>, p: PS) -> R<B::Command, B::Error>
    decreases ntoks(p.s.items), 56nat,
{
    match g_and_or::<B>(p) {
        Err(e) => Err(e),
        Ok((list, q)) => {
            let e = separator_of(q.s);
            built(B::complete_command_of(q.b, comments, list, e.0, e.1), e.2)
        }
    }
}
#[verifier::opaque]
pub open spec fn g_complete<B: Builder>(p: PS) -> R<Option<B::Command>, B::Error> {
    let l = lines_of(p.s);
    if head(l.1) is Some { some(g_complete_with::<B>(mk_vec(l.0), at(p, l.1))) }
    else if l.0.len() > 0 {
        match built(B::comments_of(p.b, mk_vec(l.0)), l.1) { Ok((_, q)) => Ok((None, q)), Err(e) => Err(e) }
    } else { Ok((None, at(p, l.1))) }
}
/// Whether a group of commands ends here.
pub open spec fn group_end(words: Seq<&str>, tokens: Seq<Token>, exact: Seq<Token>, s: St) -> (bool, St) {
    if head(s) is Some && exact.contains(head(s)->0) { (true, s) }
    else {
        let w = res_word(s, words);
        if w.0 is Some { (true, w.1) } else { let t = res_tok(w.1, tokens); (t.0 is Some, t.1) }
    }
}
#[verifier::opaque]
pub open spec fn g_group_from<B: Builder>(words: Seq<&str>, tokens: Seq<Token>, exact: Seq<Token>, cmds: Seq<B::Command>, p: PS) -> R<CommandGroup<B::Command>, B::Error>
    decreases ntoks(p.s.items), 60nat,
{
    let d = group_end(words, tokens, exact, p.s);
    let l = lines_of(d.1);
    let e = group_end(words, tokens, exact, l.1);
    if d.0 { Ok((CommandGroup { commands: mk_vec(cmds), trailing_comments: mk_vec(Seq::empty()) }, at(p, d.1))) }
    else if e.0 || head(e.1) is None { Ok((CommandGroup { commands: mk_vec(cmds), trailing_comments: mk_vec(l.0) }, at(p, e.1))) }
    else if !leq(at(p, e.1), p) { arbitrary() }
    else {
        match g_complete_with::<B>(mk_vec(l.0), at(p, e.1)) {
            Err(x) => Err(x),
            Ok((c, q)) => if lt(q, p) { g_group_from::<B>(words, tokens, exact, cmds.push(c), q) } else { arbitrary() },
        }
    }
}
#[verifier::opaque]
pub open spec fn g_group_internal<B: Builder>(words: Seq<&str>, tokens: Seq<Token>, exact: Seq<Token>, p: PS) -> R<CommandGroup<B::Command>, B::Error>
    decreases ntoks(p.s.items), 61nat,
{
    g_group_from::<B>(words, tokens, exact, Seq::empty(), p)
}
}
pub use gg::*;
/// Short sequences are their elements.
pub mod gl {
use vstd::prelude::*;
use crate::vf::*;
use crate::gr::*;
use crate::token::Token;
use crate::ast::{RedirectOrEnvVar, RedirectOrCmdWord};
use crate::ast::builder::{Builder, ComplexWordKind, WordKind, SimpleWordKind};
use crate::parse::{ParseError, unexpected};
use crate::parse::hd::*;
use crate::parse::iter::{fst, put_back};
use crate::parse::gg::*;
pub open spec fn short<A>(s: Seq<A>) -> bool {
    &&& s.len() == 0 ==> s == Seq::<A>::empty()
    &&& s.len() == 1 ==> s == seq![s[0]]
    &&& s.len() == 2 ==> s == seq![s[0], s[1]]
    &&& s.len() == 3 ==> s == seq![s[0], s[1], s[2]]
}
pub proof fn lemma_short<A>(s: Seq<A>)
    ensures short(s),
{
    if s.len() == 0 { assert(s =~= Seq::<A>::empty()); }
    if s.len() == 1 { assert(s =~= seq![s[0]]); }
    if s.len() == 2 { assert(s =~= seq![s[0], s[1]]); }
    if s.len() == 3 { assert(s =~= seq![s[0], s[1], s[2]]); }
}
pub broadcast proof fn lemma_group_args<B: Builder>(w: Seq<&str>, t: Seq<Token>, e: Seq<Token>, p: PS)
    ensures
        #![trigger g_group::<B>(w, t, e, p)]
        short(w), short(t), short(e),
{ lemma_short(w); lemma_short(t); lemma_short(e); }
pub broadcast proof fn lemma_group_args2<B: Builder>(w: Seq<&str>, t: Seq<Token>, e: Seq<Token>, p: PS)
    ensures
        #![trigger g_group_internal::<B>(w, t, e, p)]
        short(w), short(t), short(e),
{ lemma_short(w); lemma_short(t); lemma_short(e); }
pub broadcast proof fn lemma_word_args(s: St, w: Seq<&str>)
    ensures #[trigger] res_word(s, w) == res_word(s, w), short(w),
{ lemma_short(w); }
pub broadcast proof fn lemma_tok_args(s: St, w: Seq<Token>)
    ensures #[trigger] res_tok(s, w) == res_tok(s, w), short(w),
{ lemma_short(w); }
pub proof fn lemma_simple<B: Builder>(p: PS, vars: Seq<RedirectOrEnvVar<B::Redirect, String, B::Word>>, args: Seq<RedirectOrCmdWord<B::Redirect, B::Word>>, q: PS)
    requires
        g_vars_from::<B>(Seq::empty(), p) matches Ok(g) && g.1 == q && (g.0).0 == vars && first_arg((g.0).1) == args,
        leq(q, p),
    ensures g_simple::<B>(p) == simple_end::<B>(vars, g_args_from::<B>(args, q)),
{ reveal(g_simple); }
pub proof fn lemma_word_delim<B: Builder>(delim: Option<Token>, p: PS)
    ensures
        head(skip(p.s)) == Some(Token::Pound) ==> g_word_delim::<B>(delim, p) == Ok::<(Option<ComplexWordKind<B::Command>>, PS), ParseError<B::Error>>((None, at(p, skip(p.s)))),
        head(skip(p.s)) != Some(Token::Pound) && leq(at(p, skip(p.s)), p) ==>
            g_word_delim::<B>(delim, p) == word_end(g_word_from::<B>(delim, Seq::empty(), at(p, skip(p.s)))),
{ reveal(g_word_delim); }
/// What a heredoc comes to, in the order in which things are found.
pub proof fn lemma_heredoc<B: Builder>(fd: Option<u16>, p: PS)
    ensures
        ({
            let g = g_heredoc::<B>(fd, p);
            let tabs = head(p.s) == Some(Token::DLessDash);
            let dl = delim_toks(skip(after(p.s)));
            let dt = delim_of(dl.0);
            let rl = rest_line(dl.2, true);
            let hb = here_body(rl.2, tabs, dt.0);
            let end = put_back(rl.0, dl.2.pos, hb.1);
            let c = at(p, put_back(hb.0, rl.2.pos, St { items: Seq::empty(), pos: rl.2.pos }));
            if head(p.s) == Some(Token::DLess) || head(p.s) == Some(Token::DLessDash) {
                &&& (dl.1 matches Some(e) ==> g == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1)))
                &&& dl.1 is None ==> (dt.2 matches Some(e) ==> g == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1)))
                &&& dl.1 is None && dt.2 is None && dt.0.len() == 0 ==> g == Err::<(B::Redirect, PS), ParseError<B::Error>>(unexpected(dl.2))
                &&& dl.1 is None && dt.2 is None && dt.0.len() > 0 ==> (rl.1 matches Some(e) ==> g == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1)))
                &&& dl.1 is None && dt.2 is None && dt.0.len() > 0 && rl.1 is None ==> {
                    &&& dt.1 ==> g == here_redirect::<B>(fd, ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Literal(mk_string(cat(fst(hb.0)))))), at(p, end))
                    &&& !dt.1 && lt(c, p) ==> g == here_end::<B>(fd, end, g_interp_from::<B>(None, rl.2.pos, Seq::empty(), Seq::empty(), c))
                }
            } else { g == Err::<(B::Redirect, PS), ParseError<B::Error>>(unexpected(p.s)) }
        }),
{ reveal(g_heredoc); }
pub broadcast group group_g { lemma_group_args, lemma_group_args2, lemma_word_args, lemma_tok_args }
}
