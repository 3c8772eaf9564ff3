### ------------------------------------------------------------------ redirects: descriptors
@mod parse
/// Descriptors and what can be one.
pub mod rd {
use vstd::prelude::*;
use crate::vf::*;
use crate::ast::builder::{ComplexWordKind, WordKind, SimpleWordKind};
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit10(#[trigger] s[i]) }
/// A descriptor: digits only, and within u16.
pub open spec fn fd_of(s: Seq<char>) -> Option<int> {
    if all_digits(s) { int_text(s, 10, 0, u16::MAX as int) } else { None }
}
/// The text of a word made of literals only.
pub open spec fn lits<C>(w: Seq<WordKind<C>>) -> Option<Seq<char>>
    decreases w.len(),
{
    if w.len() == 0 { Some(Seq::empty()) } else {
        match (lits(w.drop_last()), w.last()) {
            (Some(t), WordKind::Simple(SimpleWordKind::Literal(s))) => Some(t + s@),
            _ => None,
        }
    }
}
pub proof fn lemma_lits<C>(w: Seq<WordKind<C>>, n: int)
    requires 0 <= n <= w.len(), lits(w.take(n)) is None,
    ensures lits(w) is None,
    decreases w.len() - n,
{
    if n < w.len() {
        assert(w.take(n + 1).drop_last() =~= w.take(n));
        lemma_lits(w, n + 1);
    } else { assert(w.take(n) =~= w); }
}
/// The descriptor a word is, if it is one: an unquoted, all digits word.
pub open spec fn num_of<C>(w: ComplexWordKind<C>) -> Option<int> {
    match w {
        ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Literal(s))) => fd_of(s@),
        ComplexWordKind::Single(_) => None,
        ComplexWordKind::Concat(f) => match lits(f@) { Some(t) => fd_of(t), None => None },
    }
}
pub open spec fn numeric1<C>(w: SimpleWordKind<C>) -> bool {
    match w {
        SimpleWordKind::Escaped(s) => all_digits(s@),
        SimpleWordKind::Literal(s) => all_digits(s@),
        SimpleWordKind::Param(_) => true,
        SimpleWordKind::Subst(_) => true,
        SimpleWordKind::CommandSubst(_) => true,
        _ => false,
    }
}
/// Whether a fragment could turn out to be a number.
pub open spec fn numeric<C>(w: WordKind<C>) -> bool {
    match w {
        WordKind::Simple(s) => numeric1(s),
        WordKind::SingleQuoted(s) => all_digits(s@),
        WordKind::DoubleQuoted(f) => forall|i: int| 0 <= i < f@.len() ==> numeric1(#[trigger] f@[i]),
    }
}
pub open spec fn numeric_word<C>(w: ComplexWordKind<C>) -> bool {
    match w {
        ComplexWordKind::Single(s) => numeric(s),
        ComplexWordKind::Concat(f) => forall|i: int| 0 <= i < f@.len() ==> numeric(#[trigger] f@[i]),
    }
}
}
pub use rd::*;

@fn parse::Parser::redirect::parse_fd
props C07 C08
ensures [C16] match fd_of(s@) { Some(v) => r is Some && r->0 as int == v, None => r is None }
@loop 1
invariant - suffix(__vx_it1.rest(), s@)
invariant_except_break
  - __vx_acc
  - forall|i: int| 0 <= i < s@.len() - __vx_it1.rest().len() ==> is_digit10(#[trigger] s@[i])
ensures __vx_acc == all_digits(s@)
decreases __vx_it1.rest().len()

@fn parse::Parser::redirect::as_num
props C07 C08
ensures [C16] match num_of(*word) { Some(v) => r is Some && r->0 as int == v, None => r is None }
@loop 1
invariant
  - fragments@.len() >= __vx_it1.rest().len()
  - __vx_it1.rest() == fragments@.skip(fragments@.len() - __vx_it1.rest().len())
  - lits(fragments@.take(fragments@.len() - __vx_it1.rest().len())) == Some(buf@)
ensures lits(fragments@) == Some(buf@)
decreases __vx_it1.rest().len()
@proof loop1.start
proof {
    let n = fragments@.len() - __vx_it1.rest().len();
    if n < fragments@.len() {
        assert(fragments@.take(n + 1).drop_last() =~= fragments@.take(n));
        assert(fragments@.take(n + 1).last() == fragments@[n]);
        assert(__vx_it1.rest()[0] == fragments@[n]);
        if lits(fragments@.take(n + 1)) is None { lemma_lits(fragments@, n + 1); }
    } else {
        assert(fragments@.take(n) =~= fragments@);
    }
}
@proof before:loop1
proof { assert(fragments@.take(0) =~= Seq::empty()); assert(buf@ =~= Seq::<char>::empty()); }

@fn parse::Parser::redirect::could_be_numeric
props C07 C08
ensures [C16] r == numeric(*word)
@loop 1
invariant - suffix(__vx_it1.rest(), s@)
invariant_except_break
  - __vx_acc
  - forall|i: int| 0 <= i < s@.len() - __vx_it1.rest().len() ==> is_digit10(#[trigger] s@[i])
ensures __vx_acc == all_digits(s@)
decreases __vx_it1.rest().len()
@loop 2
invariant - suffix(__vx_it2.rest(), s@)
invariant_except_break
  - __vx_acc
  - forall|i: int| 0 <= i < s@.len() - __vx_it2.rest().len() ==> is_digit10(#[trigger] s@[i])
ensures __vx_acc == all_digits(s@)
decreases __vx_it2.rest().len()
@loop 3
invariant - suffix(__vx_it3.rest(), fragments@)
invariant_except_break
  - __vx_acc
  - forall|i: int| 0 <= i < fragments@.len() - __vx_it3.rest().len() ==> numeric1(#[trigger] fragments@[i])
ensures __vx_acc == (forall|i: int| 0 <= i < fragments@.len() ==> numeric1(#[trigger] fragments@[i]))
decreases __vx_it3.rest().len()
@loop 4
invariant - suffix(__vx_it4.rest(), s@)
invariant_except_break
  - __vx_acc
  - forall|i: int| 0 <= i < s@.len() - __vx_it4.rest().len() ==> is_digit10(#[trigger] s@[i])
ensures __vx_acc == all_digits(s@)
decreases __vx_it4.rest().len()

### ------------------------------------------------------------------ construction and iteration
@fn parse::CommandGroupDelimiters::default
props C07 C24
ensures
  - r.reserved_tokens@ =~= Seq::<Token>::empty()
  - r.reserved_words@ =~= Seq::<&str>::empty()
  - r.exact_tokens@ =~= Seq::<Token>::empty()

@fn parse::Parser::with_builder
props C07 C03
ensures
  - r.st0() == (St { items: tok_items(iter.raw_rest()), pos: SourcePos { byte: 0, line: 1, col: 1 } })
  - r.builder == builder

@fn parse::Parser::new
props C07 C03

@fn parse::Parser::pos
props C07 C03
requires self.st0().wf()
ensures - r == self.st0().pos

@fn parse::Parser::into_iter
props C07 C08 C09
ensures - r.parser == Some(self)

@mod parse
pub open spec fn iter_ok<I: RawIterator<Item = Token>, B: builder::Builder>(i: ParserIterator<I, B>) -> bool {
    i.parser matches Some(p) ==> p.ok()
}

@fn parse::ParserIterator::new
props C07 C08 C09
ensures - r.parser == Some(parser)

@fn parse::ParserIterator::next
props C07 C08 C09
requires iter_ok(*old(self))
ensures
  - iter_ok(*final(self))
  [C08] r matches Some(Ok(_)) ==> old(self).parser is Some && final(self).parser is Some && ntoks(final(self).parser->0.st0().items) < ntoks(old(self).parser->0.st0().items)

@fn ast::builder::empty_builder::EmptyBuilder::new
props C07 C20
@fn ast::builder::empty_builder::EmptyBuilder::default
props C07 C20
