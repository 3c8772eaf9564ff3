### not for C07 C08 C14 (the contracts of the other files stand on their own)
@mod ast
/// How a parameter is displayed.
pub open spec fn param_text<T: crate::vf::Disp>(p: Parameter<T>) -> Seq<char> {
    match p {
        Parameter::At => seq!['$', '@'],
        Parameter::Star => seq!['$', '*'],
        Parameter::Pound => seq!['$', '#'],
        Parameter::Question => seq!['$', '?'],
        Parameter::Dash => seq!['$', '-'],
        Parameter::Dollar => seq!['$', '$'],
        Parameter::Bang => seq!['$', '!'],
        Parameter::Positional(n) => if n <= 9 { seq!['$'] + crate::vf::dec(n as nat) } else { seq!['$', '{'] + crate::vf::dec(n as nat) + seq!['}'] },
        Parameter::Var(v) => seq!['$', '{'] + v.disp() + seq!['}'],
    }
}
@fn ast::Parameter::fmt
props C26
ensures
  [C26] crate::vf::wrote(*old(fmt), *final(fmt), r, param_text(*self))
@proof end
proof { if __vx_out is Ok { assert(fmt.text() =~= old(fmt).text() + param_text(*self)); } }
@fn token::Token::fmt
props C01
ensures
  [C01] crate::vf::wrote(*old(fmt), *final(fmt), r, tstr(*self))
@mod parse
impl crate::vf::Disp for Token { open spec fn disp(&self) -> Seq<char> { crate::token::tstr(*self) } }
impl crate::vf::Disp for SourcePos {
    open spec fn disp(&self) -> Seq<char> { crate::vf::dec(self.line as nat) + seq![':'] + crate::vf::dec(self.col as nat) }
}
@fn parse::SourcePos::fmt
props C26
ensures
  [C26] crate::vf::wrote(*old(fmt), *final(fmt), r, crate::vf::Disp::disp(self))
@proof end
proof { if __vx_out is Ok { assert(fmt.text() =~= old(fmt).text() + crate::vf::Disp::disp(self)); } }
@mod parse
/// An error names what it is about: its positions and its token, identifier or keywords.
pub open spec fn err_shows<T: crate::vf::Disp>(e: ParseError<T>, t: Seq<char>) -> bool {
    use crate::vf::{shows, Disp};
    match e {
        ParseError::BadFd(a, b) => shows(t, a.disp()) && shows(t, b.disp()),
        ParseError::BadIdent(id, p) => shows(t, p.disp()) && shows(t, id@),
        ParseError::BadSubst(u, p) => shows(t, p.disp()) && shows(t, u.disp()),
        ParseError::Unmatched(u, p) => shows(t, p.disp()) && shows(t, u.disp()),
        ParseError::IncompleteCmd(c, p, k, q) => shows(t, p.disp()) && shows(t, q.disp()) && shows(t, c@) && shows(t, k@),
        ParseError::Unexpected(u, p) => shows(t, p.disp()) && (shows(t, u.disp()) || u is Newline && shows(t, seq!['\\', 'n'])),
        ParseError::UnexpectedEOF => t.len() > 0,
        ParseError::Custom(e) => t == e.disp(),
    }
}
@fn parse::ParseError::fmt
props C26
ensures
  [C26] old(fmt).accepts() ==> r is Ok && final(fmt).accepts()
  [C26] r is Ok ==> old(fmt).text().is_prefix_of(final(fmt).text())
  [C26] r is Ok ==> err_shows(*self, final(fmt).text().skip(old(fmt).text().len() as int))
@proof start
broadcast use {crate::vf::lemma_shows, crate::vf::lemma_skip_add};
@proof end
proof {
    let n = old(fmt).text().len() as int;
    let t = fmt.text().skip(n);
    if __vx_out is Ok {
        assert(old(fmt).text().skip(n) =~= Seq::<char>::empty());
        match self {
            ParseError::Custom(e) => { assert(t =~= crate::vf::Disp::disp(e)); }
            ParseError::Unexpected(Token::Newline, p) => {
                let s = seq!['\\', 'n'];
                let i = t.len() - 2;
                assert(t[i] == '\\');
                assert(t.subrange(i, i + s.len()) =~= s);
            }
            _ => {}
        }
    }
}
### ------------------------------------------------------------------ and are read back
@mod parse
pub mod rt {
use vstd::prelude::*;
use crate::vf::*;
use crate::gr::*;
use crate::token::{Token, Positional, tstr};
use crate::ast::{Parameter, DefaultParameter, param_text};
use crate::ast::builder::{Builder, SimpleWordKind};
use crate::lexer::{lexall, tok1, opn, op1, op2, name_start, name_cont, is_lit, is_blank, run_len, lemma_run_is, lemma_run_len, word_len, Cls};
use crate::parse::{parameter_of, ParseError};
use crate::parse::gg::*;
broadcast use {crate::vf::group_vf, crate::vf::lemma_after};

/// The name of a shell variable.
pub open spec fn is_name(s: Seq<char>) -> bool {
    s.len() > 0 && name_start(s[0]) && forall|i: int| 0 <= i < s.len() ==> name_cont(#[trigger] s[i])
}
pub open spec fn positional(n: int) -> Positional {
    if n == 0 { Positional::Zero } else if n == 1 { Positional::One } else if n == 2 { Positional::Two } else if n == 3 { Positional::Three }
    else if n == 4 { Positional::Four } else if n == 5 { Positional::Five } else if n == 6 { Positional::Six } else if n == 7 { Positional::Seven }
    else if n == 8 { Positional::Eight } else { Positional::Nine }
}
/// The tokens of a displayed parameter.
pub open spec fn param_toks(p: DefaultParameter) -> Seq<Token> {
    match p {
        Parameter::At => seq![Token::Dollar, Token::At],
        Parameter::Star => seq![Token::Dollar, Token::Star],
        Parameter::Pound => seq![Token::Dollar, Token::Pound],
        Parameter::Question => seq![Token::Dollar, Token::Question],
        Parameter::Dash => seq![Token::Dollar, Token::Dash],
        Parameter::Dollar => seq![Token::Dollar, Token::Dollar],
        Parameter::Bang => seq![Token::Dollar, Token::Bang],
        Parameter::Positional(n) => if n <= 9 { seq![Token::ParamPositional(positional(n as int))] }
            else { seq![Token::Dollar, Token::CurlyOpen, Token::Literal(mk_string(dec(n as nat))), Token::CurlyClose] },
        Parameter::Var(v) => seq![Token::Dollar, Token::CurlyOpen, Token::Name(v), Token::CurlyClose],
    }
}
pub proof fn lemma_lex2(a: char, b: char)
    requires op1(a) is Some, op1(b) is Some, op2(a, b) is None,
    ensures lexall(seq![a, b]) == seq![op1(a)->0, op1(b)->0],
{
    let s = seq![a, b];
    assert(s.skip(1) =~= seq![b]);
    assert(seq![b].skip(1) =~= Seq::<char>::empty());
    assert(lexall(seq![b].skip(1)) =~= Seq::empty());
    assert(opn(s) == Some((op1(a)->0, 1int)));
    assert(opn(seq![b]) == Some((op1(b)->0, 1int)));
    assert(lexall(seq![b]) =~= seq![op1(b)->0]);
    assert(lexall(s) =~= seq![op1(a)->0] + lexall(seq![b]));
    assert(lexall(s) =~= seq![op1(a)->0, op1(b)->0]);
}
/// `${w}`, where `w` is a single token.
pub proof fn lemma_lex_braces(w: Seq<char>)
    requires is_name(w) || (w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> '0' <= #[trigger] w[i] <= '9'),
    ensures
        lexall(seq!['$', '{'] + w + seq!['}']) == seq![Token::Dollar, Token::CurlyOpen,
            if is_name(w) { Token::Name(mk_string(w)) } else { Token::Literal(mk_string(w)) }, Token::CurlyClose],
{
    let s = seq!['$', '{'] + w + seq!['}'];
    let s1 = s.skip(1);
    let s2 = s1.skip(1);
    let n = w.len() as int;
    let s3 = s2.skip(n);
    let t = if is_name(w) { Token::Name(mk_string(w)) } else { Token::Literal(mk_string(w)) };
    assert(s1 =~= seq!['{'] + w + seq!['}']);
    assert(s2 =~= w + seq!['}']);
    assert(s3 =~= seq!['}']);
    assert(s3.skip(1) =~= Seq::<char>::empty());
    assert(lexall(s3.skip(1)) =~= Seq::empty());
    assert(opn(s3) == Some((Token::CurlyClose, 1int)));
    assert(lexall(s3) =~= seq![Token::CurlyClose]);
    assert(s2.take(n) =~= w);
    assert(s2[n] == '}');
    assert(s2[0] == w[0]);
    assert(op1(w[0]) is None);
    assert(!is_blank(w[0]));
    assert(opn(s2) is None);
    if is_name(w) {
        assert forall|i: int| 0 <= i < n implies Cls::Name.has(#[trigger] s2[i]) by { assert(s2[i] == w[i]); };
        lemma_run_is(s2, Cls::Name, n);
        assert(word_len(s2) == n);
    } else {
        assert forall|i: int| 0 <= i < n implies Cls::Lit.has(#[trigger] s2[i]) by { assert(s2[i] == w[i]); };
        lemma_run_is(s2, Cls::Lit, n);
        assert(!name_start(w[0]));
        assert(word_len(s2) == n);
    }
    assert(tok1(s2) == (t, n));
    assert(lexall(s2) =~= seq![t] + lexall(s3));
    assert(opn(s1) == Some((Token::CurlyOpen, 1int)));
    assert(lexall(s1) =~= seq![Token::CurlyOpen] + lexall(s2));
    assert(opn(s) == Some((Token::Dollar, 1int)));
    assert(lexall(s) =~= seq![Token::Dollar] + lexall(s1));
    assert(lexall(s) =~= seq![Token::Dollar, Token::CurlyOpen, t, Token::CurlyClose]);
}
pub proof fn lemma_lex_param(x: DefaultParameter)
    requires x matches Parameter::Var(v) ==> is_name(v@),
    ensures lexall(param_text(x)) == param_toks(x),
{
    match x {
        Parameter::Positional(n) => {
            lemma_numeral(n as nat);
            if n <= 9 {
                let s = param_text(x);
                assert(s =~= seq!['$', digit_char(n as int)]);
                assert(op2('$', digit_char(n as int)) == Some(Token::ParamPositional(positional(n as int))));
                assert(s.skip(2) =~= Seq::<char>::empty());
                assert(lexall(s.skip(2)) =~= Seq::empty());
                assert(lexall(s) =~= param_toks(x));
            } else {
                assert(!is_name(dec(n as nat))) by { assert('0' <= dec(n as nat)[0] <= '9'); }
                lemma_lex_braces(dec(n as nat));
            }
        }
        Parameter::Var(v) => { lemma_lex_braces(v@); }
        Parameter::At => { lemma_lex2('$', '@'); }
        Parameter::Star => { lemma_lex2('$', '*'); }
        Parameter::Pound => { lemma_lex2('$', '#'); }
        Parameter::Question => { lemma_lex2('$', '?'); }
        Parameter::Dash => { lemma_lex2('$', '-'); }
        Parameter::Dollar => { lemma_lex2('$', '$'); }
        Parameter::Bang => { lemma_lex2('$', '!'); }
    }
}
/// One token of those ahead.
pub proof fn lemma_one(s: St, t: Token, rest: Seq<Token>)
    requires s.wf(), toks(s.items) == seq![t] + rest,
    ensures head(s) == Some(t), after(s).wf(), toks(after(s).items) == rest, ntoks(s.items) == ntoks(after(s).items) + 1,
{
    lemma_after(s);
    let r = toks(after(s).items);
    assert((seq![t] + rest)[0] == t);
    assert(toks(s.items).len() > 0);
    assert(head(s) is Some);
    assert((seq![head(s)->0] + r)[0] == head(s)->0);
    assert((seq![t] + rest).drop_first() =~= rest);
    assert((seq![head(s)->0] + r).drop_first() =~= r);
}
/// A parameter in braces.
pub proof fn lemma_braces_read<B: Builder>(p: PS, x: DefaultParameter)
    requires
        p.s.wf(),
        head(p.s) == Some(Token::Dollar),
        head(after(p.s)) == Some(Token::CurlyOpen),
        head(after(after(after(p.s)))) == Some(Token::CurlyClose),
        !(x is Pound),
        parameter_of::<B::Error>(after(after(p.s))) == (Ok::<DefaultParameter, ParseError<B::Error>>(x), after(after(after(p.s)))),
    ensures
        g_parameter_raw::<B>(p) matches Ok((w, q)) && w == SimpleWordKind::<B::Command>::Param(x) && q.b == p.b && q.s == after(after(after(after(p.s)))),
{
    let s1 = after(p.s);
    let s2 = after(s1);
    let s3 = after(s2);
    let s4 = after(s3);
    let p1 = at(p, s1);
    lemma_after(p.s);
    lemma_after(s1);
    lemma_after(s2);
    lemma_after(s3);
    lemma_after(s4);
    assert(lt(p1, p));
    assert(g_parameter_raw::<B>(p) == g_param_subst::<B>(p1)) by { reveal(g_parameter_raw); reveal(g_param_subst); }
    let p3 = at(p1, s3);
    assert(lt(p3, p1) && lt(at(p1, s4), p1) && lt(at(p1, after(s4)), p1));
    assert(g_param_subst::<B>(p1) == g_subst_body::<B>(x, s1.pos, p3)) by { reveal(g_param_subst); reveal(g_subst_body); }
    assert(g_subst_body::<B>(x, s1.pos, p3) == Ok::<(SimpleWordKind<B::Command>, PS), ParseError<B::Error>>((SimpleWordKind::<B::Command>::Param(x), at(p3, s4)))) by { reveal(g_subst_body); }
}
/// A displayed parameter, read by the lexer and the parser, is that parameter again.
pub proof fn lemma_param_read<B: Builder>(p: PS, x: DefaultParameter, rest: Seq<Token>)
    requires
        p.s.wf(),
        x matches Parameter::Var(v) ==> is_name(v@),
        toks(p.s.items) == lexall(param_text(x)) + rest,
    ensures
        g_parameter_raw::<B>(p) matches Ok((w, q)) && w == SimpleWordKind::<B::Command>::Param(x) && q.b == p.b && toks(q.s.items) == rest,
{
    lemma_lex_param(x);
    let l = param_toks(x);
    let s1 = after(p.s);
    assert(l + rest =~= seq![l[0]] + (l.skip(1) + rest));
    lemma_one(p.s, l[0], l.skip(1) + rest);
    if l.len() == 1 {
        assert(l.skip(1) + rest =~= rest);
        assert(x is Positional);
        let n = x->Positional_0;
        assert(crate::parse::gg::pos_num(positional(n as int)) == n);
        reveal(g_parameter_raw);
    } else if l.len() == 2 {
        assert(l.skip(1) + rest =~= seq![l[1]] + rest);
        lemma_one(s1, l[1], rest);
        reveal(g_parameter_raw);
    } else {
        let s2 = after(s1);
        let s3 = after(s2);
        assert(l.skip(1) + rest =~= seq![l[1]] + (l.skip(2) + rest));
        lemma_one(s1, l[1], l.skip(2) + rest);
        assert(l.skip(2) + rest =~= seq![l[2]] + (l.skip(3) + rest));
        lemma_one(s2, l[2], l.skip(3) + rest);
        assert(l.skip(3) + rest =~= seq![l[3]] + rest);
        lemma_one(s3, l[3], rest);
        if x is Positional {
            let d = dec(x->Positional_0 as nat);
            lemma_numeral(x->Positional_0 as nat);
            assert('0' <= d[0] <= '9');
        }
        lemma_braces_read::<B>(p, x);
    }
}
}
@fn lexer::Lexer::next_internal
props C26
@fn lexer::Lexer::next
props C26
@fn parse::Parser::parameter
props C26
@fn parse::Parser::parameter_raw
props C26
@fn parse::Parser::parameter_substitution_raw
props C26
@fn parse::Parser::parameter_substitution_body_raw
props C26
@fn parse::Parser::parameter_inner
props C26
