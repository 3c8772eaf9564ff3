### ------------------------------------------------------------------ arithmetic
### The grammar of arithmetic expressions as a function of the tokens ahead. Every function returns the
### expression (or the error) and the state of the token stream after it.
@mod parse
pub mod ar {
use vstd::prelude::*;
use crate::vf::*;
use crate::gr::*;
use crate::token::Token;
use crate::ast::{self, Arithmetic, DefaultArithmetic};
use crate::parse::{ParseError, unexpected, arith_var_of};
broadcast use {crate::vf::group_vf, crate::gr::lemma_wf, crate::gr::lemma_skip, crate::gr::lemma_skip2, crate::gr::lemma_dec};
pub type AR<E> = (Result<DefaultArithmetic, ParseError<E>>, St);

/// The value of a numeric literal: hexadecimal after `0x`, octal after `0`, otherwise decimal.
pub open spec fn number_of(s: Seq<char>) -> Option<int> {
    if has_prefix(s, seq!['0', 'x']) || has_prefix(s, seq!['0', 'X']) {
        if s.len() == 2 { Some(0) } else { int_text(s.skip(2), 16, isize::MIN as int, isize::MAX as int) }
    } else if s.len() > 0 && s[0] == '0' { int_text(s, 8, isize::MIN as int, isize::MAX as int) }
    else { int_text(s, 10, isize::MIN as int, isize::MAX as int) }
}
pub open spec fn num_at(s: St) -> Option<int> {
    match head(s) { Some(Token::Literal(t)) => number_of(t@), _ => None }
}
pub open spec fn le(a: St, b: St) -> bool { ntoks(a.items) <= ntoks(b.items) }

/// Operands: `(expr)`, a number, `var`, `var++`, `var--`.
pub open spec fn a_post<E>(s0: St) -> AR<E>
    decreases ntoks(s0.items), 0nat,
{
    let s = skip(s0);
    if head(s) == Some(Token::ParenOpen) {
        match a_seq::<E>(after(s)) {
            (Ok(e), s1) => {
                let w = skip(s1);
                (if head(w) == Some(Token::ParenClose) { Ok(e) } else { Err(unexpected(w)) }, after(w))
            }
            x => x,
        }
    } else if num_at(s) is Some { (Ok(Arithmetic::Literal(num_at(s)->0 as isize)), after(s)) }
    else {
        match arith_var_of::<E>(s) {
            (Err(e), s1) => (Err(e), s1),
            (Ok(v), s1) => {
                let w = skip(s1);
                if head(w) == Some(Token::Plus) && head(after(w)) == Some(Token::Plus) { (Ok(Arithmetic::PostIncr(v)), after(after(w))) }
                else if head(w) == Some(Token::Dash) && head(after(w)) == Some(Token::Dash) { (Ok(Arithmetic::PostDecr(v)), after(after(w))) }
                else { (Ok(Arithmetic::Var(v)), w) }
            }
        }
    }
}
pub open spec fn map1<E>(f: spec_fn(DefaultArithmetic) -> DefaultArithmetic, x: AR<E>) -> AR<E> {
    (match x.0 { Ok(e) => Ok(f(e)), Err(e) => Err(e) }, x.1)
}
pub open spec fn map_var<E>(f: spec_fn(String) -> DefaultArithmetic, x: (Result<String, ParseError<E>>, St)) -> AR<E> {
    (match x.0 { Ok(e) => Ok(f(e)), Err(e) => Err(e) }, x.1)
}
/// Prefix operators.
pub open spec fn a_unary<E>(s0: St) -> AR<E>
    decreases ntoks(s0.items), 1nat,
{
    let s = skip(s0);
    let t = after(s);
    match head(s) {
        Some(Token::Bang) => map1(|e: DefaultArithmetic| Arithmetic::LogicalNot(Box::new(e)), a_unary::<E>(t)),
        Some(Token::Tilde) => map1(|e: DefaultArithmetic| Arithmetic::BitwiseNot(Box::new(e)), a_unary::<E>(t)),
        Some(Token::Plus) => match head(t) {
            Some(Token::Dash) => map1(|e: DefaultArithmetic| Arithmetic::UnaryPlus(Box::new(Arithmetic::UnaryMinus(Box::new(e)))), a_unary::<E>(after(t))),
            Some(Token::Plus) => map_var(|v: String| Arithmetic::PreIncr(v), arith_var_of::<E>(after(t))),
            _ => map1(|e: DefaultArithmetic| Arithmetic::UnaryPlus(Box::new(e)), a_unary::<E>(t)),
        },
        Some(Token::Dash) => match head(t) {
            Some(Token::Plus) => map1(|e: DefaultArithmetic| Arithmetic::UnaryMinus(Box::new(Arithmetic::UnaryPlus(Box::new(e)))), a_unary::<E>(after(t))),
            Some(Token::Dash) => map_var(|v: String| Arithmetic::PreDecr(v), arith_var_of::<E>(after(t))),
            _ => map1(|e: DefaultArithmetic| Arithmetic::UnaryMinus(Box::new(e)), a_unary::<E>(t)),
        },
        _ => a_post::<E>(s),
    }
}
/// `**`, to the right.
pub open spec fn a_pow<E>(s0: St) -> AR<E>
    decreases ntoks(s0.items), 2nat,
{
    match a_unary::<E>(s0) {
        (Ok(e), s1) => {
            let w = skip(s1);
            if !le(s1, s0) { arbitrary() }
            else if head(w) == Some(Token::Star) && head(after(w)) == Some(Token::Star) {
                map1(|x: DefaultArithmetic| Arithmetic::Pow(Box::new(e), Box::new(x)), a_pow::<E>(after(after(w))))
            } else { (Ok(e), w) }
        }
        x => x,
    }
}
/// The binary operators that group to the left, by increasing level of precedence: which operator of
/// the level is in front, and what follows it.
pub enum BinOp { Or, And, BitOr, BitXor, BitAnd, Eq, Ne, Lt, Le, Gt, Ge, Shl, Shr, Add, Sub, Mul, Div, Mod }
pub enum OpAt<E> { None, Op(BinOp, St), Bad(ParseError<E>, St) }
pub open spec fn op_at<E>(level: nat, s: St) -> OpAt<E> {
    let n = after(s);
    let eq = head(n) == Some(Token::Equals);
    match head(s) {
        Some(Token::OrIf) if level == 11 => OpAt::Op(BinOp::Or, n),
        Some(Token::AndIf) if level == 10 => OpAt::Op(BinOp::And, n),
        Some(Token::Pipe) if level == 9 => OpAt::Op(BinOp::BitOr, n),
        Some(Token::Caret) if level == 8 => OpAt::Op(BinOp::BitXor, n),
        Some(Token::Amp) if level == 7 => OpAt::Op(BinOp::BitAnd, n),
        Some(Token::Equals) if level == 6 => if eq { OpAt::Op(BinOp::Eq, after(n)) } else { OpAt::Bad(unexpected(n), after(n)) },
        Some(Token::Bang) if level == 6 => if eq { OpAt::Op(BinOp::Ne, after(n)) } else { OpAt::Bad(unexpected(n), after(n)) },
        Some(Token::Less) if level == 5 => if eq { OpAt::Op(BinOp::Le, after(n)) } else { OpAt::Op(BinOp::Lt, n) },
        Some(Token::Great) if level == 5 => if eq { OpAt::Op(BinOp::Ge, after(n)) } else { OpAt::Op(BinOp::Gt, n) },
        Some(Token::DLess) if level == 4 => OpAt::Op(BinOp::Shl, n),
        Some(Token::DGreat) if level == 4 => OpAt::Op(BinOp::Shr, n),
        Some(Token::Plus) if level == 3 => OpAt::Op(BinOp::Add, n),
        Some(Token::Dash) if level == 3 => OpAt::Op(BinOp::Sub, n),
        Some(Token::Star) if level == 2 => OpAt::Op(BinOp::Mul, n),
        Some(Token::Slash) if level == 2 => OpAt::Op(BinOp::Div, n),
        Some(Token::Percent) if level == 2 => OpAt::Op(BinOp::Mod, n),
        _ => OpAt::None,
    }
}
pub open spec fn mk_bin(op: BinOp, l: DefaultArithmetic, r: DefaultArithmetic) -> DefaultArithmetic {
    match op {
        BinOp::Or => Arithmetic::LogicalOr(Box::new(l), Box::new(r)),
        BinOp::And => Arithmetic::LogicalAnd(Box::new(l), Box::new(r)),
        BinOp::BitOr => Arithmetic::BitwiseOr(Box::new(l), Box::new(r)),
        BinOp::BitXor => Arithmetic::BitwiseXor(Box::new(l), Box::new(r)),
        BinOp::BitAnd => Arithmetic::BitwiseAnd(Box::new(l), Box::new(r)),
        BinOp::Eq => Arithmetic::Eq(Box::new(l), Box::new(r)),
        BinOp::Ne => Arithmetic::NotEq(Box::new(l), Box::new(r)),
        BinOp::Lt => Arithmetic::Less(Box::new(l), Box::new(r)),
        BinOp::Le => Arithmetic::LessEq(Box::new(l), Box::new(r)),
        BinOp::Gt => Arithmetic::Great(Box::new(l), Box::new(r)),
        BinOp::Ge => Arithmetic::GreatEq(Box::new(l), Box::new(r)),
        BinOp::Shl => Arithmetic::ShiftLeft(Box::new(l), Box::new(r)),
        BinOp::Shr => Arithmetic::ShiftRight(Box::new(l), Box::new(r)),
        BinOp::Add => Arithmetic::Add(Box::new(l), Box::new(r)),
        BinOp::Sub => Arithmetic::Sub(Box::new(l), Box::new(r)),
        BinOp::Mul => Arithmetic::Mult(Box::new(l), Box::new(r)),
        BinOp::Div => Arithmetic::Div(Box::new(l), Box::new(r)),
        BinOp::Mod => Arithmetic::Modulo(Box::new(l), Box::new(r)),
    }
}
/// An expression of a level: operands of the next level joined by the operators of this one.
pub open spec fn a_level<E>(level: nat, s: St) -> AR<E>
    decreases ntoks(s.items), 3 + level, 1nat,
{
    if level < 2 || level > 11 { a_pow(s) } else {
        match if level == 2 { a_pow::<E>(s) } else { a_level::<E>((level - 1) as nat, s) } {
            (Ok(e), s1) => if le(s1, s) { a_left::<E>(level, e, s1) } else { arbitrary() },
            x => x,
        }
    }
}
/// The rest of an expression of a level after its left operand.
pub open spec fn a_left<E>(level: nat, l: DefaultArithmetic, s: St) -> AR<E>
    decreases ntoks(s.items), 3 + level, 0nat,
{
    let w = skip(s);
    match op_at::<E>(level, w) {
        OpAt::None => (Ok(l), w),
        OpAt::Bad(e, s1) => (Err(e), s1),
        OpAt::Op(op, s1) => {
            if !(ntoks(s1.items) < ntoks(s.items)) || level < 2 || level > 11 { arbitrary() } else {
                match if level == 2 { a_pow::<E>(s1) } else { a_level::<E>((level - 1) as nat, s1) } {
                    (Ok(r), s2) => if le(s2, s1) { a_left::<E>(level, mk_bin(op, l, r), s2) } else { arbitrary() },
                    x => x,
                }
            }
        }
    }
}
/// `expr ? expr : expr`
pub open spec fn a_ternary<E>(s: St) -> AR<E>
    decreases ntoks(s.items), 15nat,
{
    match a_level::<E>(11, s) {
        (Ok(g), s1) => {
            let w = skip(s1);
            if !le(s1, s) { arbitrary() }
            else if head(w) != Some(Token::Question) { (Ok(g), w) }
            else {
                match a_ternary::<E>(after(w)) {
                    (Ok(b), s2) => {
                        let w2 = skip(s2);
                        if !le(s2, after(w)) { arbitrary() }
                        else if head(w2) != Some(Token::Colon) { (Err(unexpected(w2)), after(w2)) }
                        else { map1(|e: DefaultArithmetic| Arithmetic::Ternary(Box::new(g), Box::new(b), Box::new(e)), a_ternary::<E>(after(w2))) }
                    }
                    x => x,
                }
            }
        }
        x => x,
    }
}
/// What follows leading `$`s / blanks.
pub open spec fn no_dollars(t: Seq<Token>) -> Seq<Token>
    decreases t.len(),
{
    if t.len() > 0 && t[0] == Token::Dollar { no_dollars(t.drop_first()) } else { t }
}
pub open spec fn no_blanks(t: Seq<Token>) -> Seq<Token>
    decreases t.len(),
{
    if t.len() > 0 && t[0] is Whitespace { no_blanks(t.drop_first()) } else { t }
}
/// The token starts a compound assignment operator.
pub open spec fn is_assig_op(t: Token) -> bool {
    t == Token::Star || t == Token::Slash || t == Token::Percent || t == Token::Plus || t == Token::Dash || t == Token::DLess
        || t == Token::DGreat || t == Token::Amp || t == Token::Pipe || t == Token::Caret
}
/// The tokens start with a variable and an assignment operator (but not `==`).
pub open spec fn is_assig(t: Seq<Token>) -> bool {
    let n = no_dollars(t);
    &&& n.len() > 0
    &&& n[0] is Name
    &&& {
        let o = no_blanks(n.drop_first());
        &&& o.len() > 0
        &&& if is_assig_op(o[0]) { o.len() > 1 && o[1] == Token::Equals }
            else { o[0] == Token::Equals && !(o.len() > 1 && o[1] == Token::Equals) }
    }
}
pub open spec fn assig_value(op: Token, v: String, e: DefaultArithmetic) -> DefaultArithmetic {
    let l = Arithmetic::Var(v);
    match op {
        Token::Star => Arithmetic::Mult(Box::new(l), Box::new(e)),
        Token::Slash => Arithmetic::Div(Box::new(l), Box::new(e)),
        Token::Percent => Arithmetic::Modulo(Box::new(l), Box::new(e)),
        Token::Plus => Arithmetic::Add(Box::new(l), Box::new(e)),
        Token::Dash => Arithmetic::Sub(Box::new(l), Box::new(e)),
        Token::DLess => Arithmetic::ShiftLeft(Box::new(l), Box::new(e)),
        Token::DGreat => Arithmetic::ShiftRight(Box::new(l), Box::new(e)),
        Token::Amp => Arithmetic::BitwiseAnd(Box::new(l), Box::new(e)),
        Token::Pipe => Arithmetic::BitwiseOr(Box::new(l), Box::new(e)),
        Token::Caret => Arithmetic::BitwiseXor(Box::new(l), Box::new(e)),
        _ => e,
    }
}
/// `var = expr`, `var op= expr`, to the right.
pub open spec fn a_assig<E>(s0: St) -> AR<E>
    decreases ntoks(s0.items), 16nat,
{
    let s = skip(s0);
    if !is_assig(toks(s.items)) { a_ternary::<E>(s) } else {
        match arith_var_of::<E>(s) {
            (Err(e), s1) => (Err(e), s1),
            (Ok(v), s1) => {
                let w = skip(s1);
                let op = head(w)->0;
                let n = if op == Token::Equals { after(w) } else { after(after(w)) };
                if head(w) is None || !(ntoks(n.items) < ntoks(s0.items)) { arbitrary() }
                else { map1(|e: DefaultArithmetic| Arithmetic::Assign(v, Box::new(assig_value(op, v, e))), a_assig::<E>(n)) }
            }
        }
    }
}
/// `expr, expr, ...`
pub open spec fn a_seq<E>(s: St) -> AR<E>
    decreases ntoks(s.items), 19nat,
{
    match a_list::<E>(Seq::empty(), s) {
        (Ok(l), s1) => (Ok(if l.len() == 1 { l[0] } else { Arithmetic::Sequence(mk_vec(l)) }), s1),
        (Err(e), s1) => (Err(e), s1),
    }
}
pub open spec fn a_list<E>(l: Seq<DefaultArithmetic>, s: St) -> (Result<Seq<DefaultArithmetic>, ParseError<E>>, St)
    decreases ntoks(s.items), 18nat,
{
    match a_assig::<E>(skip(s)) {
        (Err(e), s1) => (Err(e), s1),
        (Ok(e), s1) => {
            if !le(s1, s) { arbitrary() }
            else if head(s1) != Some(Token::Comma) { (Ok(l.push(e)), s1) }
            else { a_list::<E>(l.push(e), after(s1)) }
        }
    }
}
/// The tokens after the first one.
pub proof fn lemma_after_toks(s: St)
    requires s.wf(),
    ensures
        head(s) is Some ==> toks(after(s).items) == toks(s.items).drop_first(),
{
    lemma_after(s);
    if head(s) is Some { assert(toks(s.items).drop_first() =~= toks(after(s).items)); }
}
pub proof fn lemma_blanks(s: St)
    requires s.wf(),
    ensures ({
        let b = no_blanks(toks(s.items));
        b.len() > 0 && !(b[0] is Backslash) ==> toks(skip(s).items) == b
    }),
    decreases ntoks(s.items),
{
    lemma_peek(s);
    lemma_after_toks(s);
    if head(s) matches Some(Token::Whitespace(_)) { lemma_blanks(after(s)); }
}
pub open spec fn same_peek(a: crate::parse::iter::Multipeek, b: crate::parse::iter::Multipeek) -> bool {
    a.all() == b.all() && a.iter.dpos() == b.iter.dpos()
}
/// Where an assignment was recognized, its variable is followed by an assignment operator.
pub proof fn lemma_assig<E>(s: St)
    requires s.wf(), skip(s) == s, is_assig(toks(s.items)), arith_var_of::<E>(s).0 is Ok,
    ensures ({
        let w = skip(arith_var_of::<E>(s).1);
        &&& head(w) is Some
        &&& head(w) == Some(Token::Equals) || is_assig_op(head(w)->0) && head(after(w)) == Some(Token::Equals)
    }),
{
    lemma_peek(s);
    lemma_after_toks(s);
    let t = after(s);
    lemma_peek(t);
    lemma_after_toks(t);
    let u = if head(s) == Some(Token::Dollar) { after(t) } else { t };
    reveal_with_fuel(no_dollars, 3);
    assert(no_dollars(toks(s.items)).drop_first() == toks(u.items));
    assert(u == arith_var_of::<E>(s).1);
    lemma_blanks(u);
    lemma_peek(skip(u));
}
pub proof fn lemma_num(s: Seq<char>)
    ensures
        "0x"@ == seq!['0', 'x'],
        "0X"@ == seq!['0', 'X'],
        has_prefix(s, seq!['0']) == (s.len() > 0 && s[0] == '0'),
        has_prefix(s, seq!['0', 'x']) || has_prefix(s, seq!['0', 'X']) ==>
            s.len() >= 2 && byte_cut(s, 2) == Some(s.skip(2)) && s.skip(2).len() == s.len() - 2,
{
    reveal_strlit("0x");
    reveal_strlit("0X");
    assert("0x"@ =~= seq!['0', 'x']);
    assert("0X"@ =~= seq!['0', 'X']);
    if has_prefix(s, seq!['0', 'x']) { lemma_cut2(s, 'x'); }
    else if has_prefix(s, seq!['0', 'X']) { lemma_cut2(s, 'X'); }
    if s.len() > 0 {
        let p = s.subrange(0, 1);
        assert(p[0] == s[0]);
        if s[0] == '0' { assert(p =~= seq!['0']); }
        if p == seq!['0'] { assert(p[0] == '0'); }
    }
}
proof fn lemma_cut2(s: Seq<char>, c: char)
    requires has_prefix(s, seq!['0', c]), c == 'x' || c == 'X',
    ensures s.len() >= 2, byte_cut(s, 2) == Some(s.skip(2)),
{
    let p = s.subrange(0, 2);
    assert(p == seq!['0', c]);
    assert(p[0] == '0' && p[1] == c);
    let t = s.drop_first();
    assert(t[0] == c);
    reveal_with_fuel(byte_cut, 3);
    assert(t.drop_first() =~= s.skip(2));
}
pub proof fn lemma_skip_seq<T>(t: Seq<T>, n: int)
    requires 0 <= n < t.len(),
    ensures t.skip(n).drop_first() == t.skip(n + 1), t.skip(n)[0] == t[n], t.skip(n).len() > 0,
{
    assert(t.skip(n).drop_first() =~= t.skip(n + 1));
}
}
pub use ar::*;
### ---- contracts

@fn parse::Parser::arith_logical_or
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(11, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 12nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(11, expr, self.st0()) == a_level::<B::Error>(11, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(11, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_logical_and
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(10, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 11nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(10, expr, self.st0()) == a_level::<B::Error>(10, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(10, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_bitwise_or
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(9, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 10nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(9, expr, self.st0()) == a_level::<B::Error>(9, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(9, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_bitwise_xor
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(8, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 9nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(8, expr, self.st0()) == a_level::<B::Error>(8, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(8, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_bitwise_and
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(7, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 8nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(7, expr, self.st0()) == a_level::<B::Error>(7, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(7, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_eq
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(6, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 7nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(6, expr, self.st0()) == a_level::<B::Error>(6, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(6, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_ineq
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(5, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 6nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(5, expr, self.st0()) == a_level::<B::Error>(5, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(5, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_shift
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(4, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 5nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(4, expr, self.st0()) == a_level::<B::Error>(4, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(4, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_add
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(3, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 4nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(3, expr, self.st0()) == a_level::<B::Error>(3, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(3, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_mult
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_level::<B::Error>(2, (*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 3nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_left::<B::Error>(2, expr, self.st0()) == a_level::<B::Error>(2, (*old(self)).st0())
ensures
  [C12 C23] (Ok(expr), self.st0()) == a_level::<B::Error>(2, (*old(self)).st0())
decreases ntoks(self.st0().items)

@fn parse::Parser::arith_post_incr
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_post::<B::Error>((*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 0nat
@proof before-call peek#3
let ghost sn = self.st0();
proof { if let Some(Token::Literal(t)) = head(sn) { lemma_num(t@); } }
@proof after-call skip_whitespace#3
proof { lemma_peek(self.st0()); }

@fn parse::Parser::arith_unary_misc
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_unary::<B::Error>((*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 1nat

@fn parse::Parser::arith_pow
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_pow::<B::Error>((*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 2nat
@proof after-call skip_whitespace
proof { lemma_peek(self.st0()); }

@fn parse::Parser::arith_ternary
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_ternary::<B::Error>((*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 13nat

@fn parse::Parser::arith_assig
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_assig::<B::Error>((*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 14nat
@proof after-call skip_whitespace#1
let ghost s0 = self.st0();
let ghost tk = toks(s0.items);
proof { lemma_peek(s0); assert(tk.skip(0) =~= tk); }
@proof after-let peeked
let ghost pk = peeked;
@loop 1
invariant
  - peeked.all() == pk.all()
  - peeked.iter.dpos() == pk.iter.dpos()
  - peeked.iter.fin_items() == pk.iter.fin_items()
  - peeked.iter.fin_pos() == pk.iter.fin_pos()
  - peeked.iter.fin_nbuf() == pk.iter.fin_nbuf()
  - peeked.seen() <= tk.len()
invariant_except_break
  - !assig
  - no_dollars(tk.skip(peeked.seen() as int)) == no_dollars(tk)
ensures
  - assig == is_assig(tk)
decreases tk.len() - peeked.seen()
@proof loop1.start
proof { if peeked.seen() < tk.len() { lemma_skip_seq(tk, peeked.seen() as int); } }
@loop 2
invariant
  - peeked.all() == pk.all()
  - peeked.iter.dpos() == pk.iter.dpos()
  - peeked.iter.fin_items() == pk.iter.fin_items()
  - peeked.iter.fin_pos() == pk.iter.fin_pos()
  - peeked.iter.fin_nbuf() == pk.iter.fin_nbuf()
  - peeked.seen() <= tk.len()
  - !assig
  - no_dollars(tk).len() > 0 && no_dollars(tk)[0] is Name
  - no_blanks(tk.skip(peeked.seen() as int)) == no_blanks(no_dollars(tk).drop_first())
decreases tk.len() - peeked.seen()
@proof loop2.start
proof {
    if peeked.seen() < tk.len() { lemma_skip_seq(tk, peeked.seen() as int); }
    if peeked.seen() + 1 < tk.len() { lemma_skip_seq(tk, peeked.seen() as int + 1); assert(tk.skip(peeked.seen() as int)[1] == tk[peeked.seen() as int + 1]); }
}
@proof after-let var
proof { lemma_assig::<B::Error>(s0); }

@fn parse::Parser::arithmetic_substitution
props C07 C08 C12 C14 C23
requires (*old(self)).st0().wf()
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - final(self).builder == old(self).builder
  [C14] !(r matches Err(ParseError::Custom(_)))
  [C12 C23] (r, (*final(self)).st0()) == a_seq::<B::Error>((*old(self)).st0())
decreases ntoks((*old(self)).st0().items), 16nat
@loop 1
invariant
  - self.st0().wf()
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - self.builder == old(self).builder
invariant_except_break
  [C12 C23] a_list::<B::Error>(exprs@, self.st0()) == a_list::<B::Error>(Seq::empty(), (*old(self)).st0())
ensures
  [C12 C23] (Ok(exprs@), self.st0()) == a_list::<B::Error>(Seq::empty(), (*old(self)).st0())
  - exprs@.len() > 0
decreases ntoks(self.st0().items)
