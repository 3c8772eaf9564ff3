### ------------------------------------------------------------------ errors
@mod parse
impl<T> crate::vf::VxFrom<T> for ParseError<T> {
    open spec fn from_spec(e: T) -> ParseError<T> { ParseError::Custom(e) }
    fn conv(e: T) -> (r: ParseError<T>) { ParseError::from(e) }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for ParseError<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: T) -> ParseError<T> { ParseError::Custom(e) }
}
@fn parse::ParseError::from
props C14
ensures [C14] r == ParseError::<T>::Custom(err)

### ------------------------------------------------------------------ token level functions
@mod parse
/// What the token level functions compute.
pub mod tl {
use vstd::prelude::*;
use crate::vf::*;
use crate::gr::*;
use crate::token::Token;
use crate::ast::{self, DefaultParameter};
use crate::parse::{ParseError, CompoundCmdKeyword, FOR, CASE, IF, WHILE, UNTIL};
/// The builder's error, if that is what is reported.
pub open spec fn custom_of<T, E>(r: Result<T, ParseError<E>>) -> Option<E> {
    match r { Err(ParseError::Custom(e)) => Some(e), _ => None }
}
/// The error naming the next token.
pub open spec fn unexpected<E>(s: St) -> ParseError<E> {
    match head(s) { Some(t) => ParseError::Unexpected(t, s.pos), None => ParseError::UnexpectedEOF }
}

/// The culprit when a reserved token is missing: the next token, or the one after it when the next
/// one is the right token but is not on its own.
pub open spec fn res_tok_err<E>(s: St, tokens: Seq<Token>) -> ParseError<E> {
    let w = res_tok(s, tokens).1;
    match head(w) {
        Some(t) => unexpected(if tokens.contains(t) { after(w) } else { w }),
        None => unexpected(w),
    }
}
pub open spec fn lone1(s: St, t: Token) -> bool { head(s) == Some(t) && at_delim(after(s)) }
/// The word `w` is in front, on its own.
pub open spec fn kw_at(s: St, w: &str) -> bool { word_text(head(s)) == Some(w@) && at_delim(after(s)) }
/// The compound command that starts here.
pub open spec fn compound_kind(s: St) -> Option<CompoundCmdKeyword> {
    if head(s) == Some(Token::ParenOpen) { Some(CompoundCmdKeyword::Subshell) }
    else if lone1(s, Token::CurlyOpen) { Some(CompoundCmdKeyword::Brace) }
    else if kw_at(s, FOR) { Some(CompoundCmdKeyword::For) }
    else if kw_at(s, CASE) { Some(CompoundCmdKeyword::Case) }
    else if kw_at(s, IF) { Some(CompoundCmdKeyword::If) }
    else if kw_at(s, WHILE) { Some(CompoundCmdKeyword::While) }
    else if kw_at(s, UNTIL) { Some(CompoundCmdKeyword::Until) }
    else { None }
}

/// `name` or `$name`
pub open spec fn arith_var_of<E>(s0: St) -> (Result<String, ParseError<E>>, St) {
    let w = skip(s0);
    let s = if head(w) == Some(Token::Dollar) { after(w) } else { w };
    match head(s) {
        Some(Token::Name(n)) => (Ok(n), after(s)),
        _ => (Err(unexpected(s)), after(s)),
    }
}

/// The parameter named by the next token.
pub open spec fn parameter_of<E>(s: St) -> (Result<DefaultParameter, ParseError<E>>, St) {
    (match head(s) {
        Some(Token::Star) => Ok(ast::Parameter::Star),
        Some(Token::Pound) => Ok(ast::Parameter::Pound),
        Some(Token::Question) => Ok(ast::Parameter::Question),
        Some(Token::Dollar) => Ok(ast::Parameter::Dollar),
        Some(Token::Bang) => Ok(ast::Parameter::Bang),
        Some(Token::Dash) => Ok(ast::Parameter::Dash),
        Some(Token::At) => Ok(ast::Parameter::At),
        Some(Token::Name(n)) => Ok(ast::Parameter::Var(n)),
        Some(Token::Literal(n)) => match int_text(n@, 10, 0, u32::MAX as int) {
            Some(v) => Ok(ast::Parameter::Positional(v as u32)),
            None => Err(ParseError::BadSubst(Token::Literal(n), s.pos)),
        },
        Some(t) => Err(ParseError::BadSubst(t, s.pos)),
        None => Err(ParseError::UnexpectedEOF),
    }, after(s))
}
}
pub use tl::*;
use crate::gr::*;

@fn parse::concat_tokens
props C07 C08 C11 C17
ensures r@ == cat(tokens@)
@loop 1
ensures true
decreases __vx_it1.rest().len()
@proof before-call vx_len
### machine arithmetic: the length of a text is assumed not to exceed usize::MAX
let ghost g: usize = __vx_acc;
proof { assume(g + blen(tstr(*__vx_x1)) <= usize::MAX); }
@loop 2
invariant
  - s@ + cat(__vx_it2.rest()) == cat(tokens@)
ensures __vx_it2.rest().len() == 0
decreases __vx_it2.rest().len()
@proof loop2.start
let ghost r0 = __vx_it2.rest();
@proof after-call vx_ext1
proof {
    assert(r0 =~= seq![r0[0]] + r0.drop_first());
    lemma_cat_add(seq![r0[0]], r0.drop_first());
    assert(seq![r0[0]].drop_last() =~= Seq::empty());
    assert(cat(seq![r0[0]].drop_last()) =~= Seq::empty());
    assert(cat(seq![r0[0]]) =~= tstr(r0[0]));
    assert((s@ + cat(r0.drop_first())) =~= cat(tokens@));
}
@proof end
proof { assert(s@ =~= cat(tokens@)); }

@impl parse::Parser
    pub open spec fn st0(&self) -> St { self.iter.st0() }
    pub open spec fn ps(&self) -> PS { PS { s: self.st0(), b: self.builder.bs() } }
    pub open spec fn ok(&self) -> bool { self.st0().wf() && self.builder.failure() is None }

@fn parse::Parser::make_unexpected_err
props C07 C08 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0() == after((*old(self)).st0())
  - final(self).builder == old(self).builder
  [C23] r == unexpected::<B::Error>((*old(self)).st0())

@fn parse::Parser::skip_whitespace
props C07 C08 C11
requires (*old(self)).st0().wf()
ensures
  [C11 C13 C15 C16 C24 C12] (*final(self)).st0() == skip((*old(self)).st0())
  - final(self).builder == old(self).builder
@loop 1
invariant
  - self.st0().wf()
  - skip(self.st0()) == skip((*old(self)).st0())
  - self.builder == old(self).builder
ensures skip(self.st0()) == self.st0()
decreases ntoks(self.st0().items)
@loop 2
invariant
  - self.st0().wf()
  - skip(self.st0()) == skip((*old(self)).st0())
  - self.builder == old(self).builder
  - ntoks(self.st0().items) <= ntoks(s1.items)
ensures !(head(self.st0()) matches Some(Token::Whitespace(_)))
decreases ntoks(self.st0().items)
@proof loop1.start
let ghost s1 = self.st0();
@proof after:loop2
let ghost s2 = self.st0();
proof { lemma_peek(s2); }

@fn parse::Parser::newline
props C07 C08 C11
requires (*old(self)).st0().wf()
ensures
  [C11 C13 C24] (r, (*final(self)).st0()) == newline_of((*old(self)).st0())
  - final(self).builder == old(self).builder
@loop 1
invariant
  - self.st0().wf()
  - self.builder == old(self).builder
invariant_except_break
  - __vx_acc@ + comment_toks(self.st0()) == comment_toks(skip((*old(self)).st0()))
  - comment_end(self.st0()) == comment_end(skip((*old(self)).st0()))
ensures
  - __vx_acc@ == comment_toks(skip((*old(self)).st0()))
  - self.st0() == comment_end(skip((*old(self)).st0()))
decreases ntoks(self.st0().items)
@proof loop1.start
let ghost a0 = __vx_acc@;
let ghost s0 = self.st0();
proof {
    assert(a0 + Seq::<Token>::empty() =~= a0);
    if head(s0) is Some && !(head(s0)->0 is Newline) {
        assert(a0 + (seq![head(s0)->0] + comment_toks(after(s0))) =~= a0.push(head(s0)->0) + comment_toks(after(s0)));
    }
}
@proof before:loop1
proof { assert(Seq::<Token>::empty() + comment_toks(self.st0()) =~= comment_toks(self.st0())); }

@fn parse::Parser::linebreak
props C07 C08 C11
requires (*old(self)).st0().wf()
ensures
  [C11 C13 C24] (r@, (*final(self)).st0()) == lines_of((*old(self)).st0())
  - final(self).builder == old(self).builder
@loop 1
invariant
  - self.st0().wf()
  - self.builder == old(self).builder
invariant_except_break
  - lines@ + lines_of(self.st0()).0 == lines_of((*old(self)).st0()).0
  - lines_of(self.st0()).1 == lines_of((*old(self)).st0()).1
ensures
  - lines@ == lines_of((*old(self)).st0()).0
  - self.st0() == lines_of((*old(self)).st0()).1
decreases ntoks(self.st0().items)
@proof before:loop1
proof { assert(lines@ + lines_of(self.st0()).0 =~= lines_of(self.st0()).0); }
@proof loop1.start
let ghost l0 = lines@;
let ghost s0 = self.st0();
proof {
    assert(l0 + Seq::<builder::Newline>::empty() =~= l0);
    if newline_of(s0).0 is Some {
        assert(l0 + (seq![newline_of(s0).0->0] + lines_of(newline_of(s0).1).0) =~= l0.push(newline_of(s0).0->0) + lines_of(newline_of(s0).1).0);
    }
}

@fn parse::Parser::peek_reserved_token
props C07 C08 C10
requires (*old(self)).st0().wf()
ensures
  [C10 C16 C24] (match r { Some(t) => Some(*t), None => None }, (*final(self)).st0()) == res_tok((*old(self)).st0(), tokens@)
  - final(self).builder == old(self).builder
@proof start
let ghost s0 = self.st0();
@loop 1
invariant
  - suffix(__vx_it1.rest(), tokens@)
invariant_except_break
  - __vx_acc == false
  - forall|i: int| 0 <= i < tokens@.len() - __vx_it1.rest().len() ==> !(#[trigger] tokens@[i] is Whitespace)
ensures __vx_acc == has_ws(tokens@)
decreases __vx_it1.rest().len()
@loop 2
invariant
  - self.st0().wf()
  - self.builder == old(self).builder
  - __vx_n1 == (if has_ws(tokens@) { 2int } else { 1int })
  - 0 <= __vx_i1 <= __vx_n1
  - self.st0() == (if __vx_i1 == 0 && has_ws(tokens@) { s0 } else { skip(s0) })
  - __vx_i1 == 1 && has_ws(tokens@) ==> !lone_tok(s0, tokens@)
  - __vx_i1 == __vx_n1 ==> !lone_tok(skip(s0), tokens@) && (has_ws(tokens@) ==> !lone_tok(s0, tokens@))
ensures __vx_i1 == __vx_n1
decreases __vx_n1 - __vx_i1
@proof loop2.start
let ghost s1 = self.st0();
proof { lemma_peek(s1); }
@loop 3
invariant
  - suffix(__vx_it2.rest(), tokens@)
invariant_except_break
  - __vx_acc is None
  - forall|i: int| 0 <= i < tokens@.len() - __vx_it2.rest().len() ==> #[trigger] tokens@[i] != *tok
ensures
  - found_tok(__vx_acc, tokens@, *tok)
decreases __vx_it2.rest().len()

@fn parse::Parser::peek_reserved_word
props C07 C08 C10
requires (*old(self)).st0().wf()
ensures
  [C10 C24] (match r { Some(t) => Some(t@), None => None }, (*final(self)).st0()) == res_word((*old(self)).st0(), words@)
  - final(self).builder == old(self).builder
@proof after-call skip_whitespace
let ghost s1 = self.st0();
proof { lemma_peek(s1); }
@loop 1
invariant
  - suffix(__vx_it1.rest(), words@)
invariant_except_break
  - __vx_acc is None
  - forall|i: int| 0 <= i < words@.len() - __vx_it1.rest().len() ==> (#[trigger] words@[i])@ != kw@
ensures
  - found_word(__vx_acc, words@, kw@)
decreases __vx_it1.rest().len()

@fn parse::Parser::reserved_token
props C07 C08 C10 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - final(self).builder == old(self).builder
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C10 C24] r matches Ok(t) ==> res_tok((*old(self)).st0(), tokens@).0 == Some(t) && (*final(self)).st0() == after(res_tok((*old(self)).st0(), tokens@).1)
  [C10 C24] r is Err ==> res_tok((*old(self)).st0(), tokens@).0 is None
  [C23] r matches Err(e) ==> e == res_tok_err::<B::Error>((*old(self)).st0(), tokens@)
@fn parse::Parser::reserved_token
@proof before-let skip_one
let ghost hd = head(self.st0());
@loop 1
invariant
  - suffix(__vx_it1.rest(), tokens@)
invariant_except_break
  - __vx_acc == false
  - forall|i: int| 0 <= i < tokens@.len() - __vx_it1.rest().len() ==> Some(#[trigger] tokens@[i]) != hd
ensures __vx_acc == (hd is Some && tokens@.contains(hd->0))
decreases __vx_it1.rest().len()

@fn parse::Parser::reserved_word
props C07 C08 C10
requires (*old(self)).st0().wf()
ensures
  - final(self).builder == old(self).builder
  [C10 C24] match r {
        Ok(w) => res_word((*old(self)).st0(), words@).0 == Some(w@) && (*final(self)).st0() == after(res_word((*old(self)).st0(), words@).1),
        Err(_) => res_word((*old(self)).st0(), words@) == (None::<Seq<char>>, (*final(self)).st0()),
    }

@fn parse::Parser::next_compound_command_type
props C07 C08 C10 C24
requires (*old(self)).st0().wf()
ensures
  - final(self).builder == old(self).builder
  - (*final(self)).st0() == skip((*old(self)).st0())
  [C24] r == compound_kind((*final(self)).st0())
@proof end
proof {
    let s = self.st0();
    if word_text(head(s)) is Some { lemma_has_word(seq![FOR, CASE, IF, WHILE, UNTIL], word_text(head(s))->0); }
}
@fn parse::Parser::arith_var
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - final(self).builder == old(self).builder
  [C12] (r, (*final(self)).st0()) == arith_var_of::<B::Error>((*old(self)).st0())
@fn parse::Parser::parameter_inner
props C07 C08 C14 C22 C23
requires (*old(self)).st0().wf()
ensures
  - final(self).builder == old(self).builder
  [C22] (r, (*final(self)).st0()) == parameter_of::<B::Error>((*old(self)).st0())
