### ------------------------------------------------------------------ source positions
@fn parse::SourcePos::new
props C03
ensures r == (SourcePos { byte: 0, line: 1, col: 1 })

@fn parse::SourcePos::default
props C03
ensures r == (SourcePos { byte: 0, line: 1, col: 1 })

@fn parse::SourcePos::advance
props C03
ensures *final(self) == crate::vf::adv(*old(self), *next)
@proof start
### machine arithmetic: positions are assumed not to exceed usize::MAX
proof {
    assume(self.byte + blen(tstr(*next)) <= usize::MAX);
    assume(self.col + blen(tstr(*next)) <= usize::MAX);
    assume(self.line + newlines_in(*next) <= usize::MAX);
}
@loop 1
invariant __vx_acc as nat + count_nl(__vx_it1.rest()) == count_nl(s@)
ensures __vx_it1.rest().len() == 0
decreases __vx_it1.rest().len()

@fn parse::SourcePos::advance_tabs
props C03 C17
ensures *final(self) == (SourcePos { byte: (old(self).byte + num_tab) as usize, line: old(self).line, col: (old(self).col + num_tab) as usize })
@proof start
proof { assume(self.byte + num_tab <= usize::MAX && self.col + num_tab <= usize::MAX); }

@mod parse
broadcast use {crate::vf::group_vf, crate::gr::lemma_wf, crate::gr::lemma_skip, crate::gr::lemma_skip2, crate::gr::lemma_dec, crate::gr::lemma_push, crate::gr::lemma_suffix, crate::gr::lemma_suffix_step, crate::gr::lemma_suffix_refl, crate::gr::lemma_newline_of, crate::gr::lemma_lines_of};
use crate::token::{tstr, newlines_in, is_delim};
use crate::parse::iter::{bal_measure, lemma_bal_step, bal_run, bal_init, bal_step};

@mod parse::iter
broadcast use {crate::vf::group_vf, crate::vf::lemma_after};
use crate::token::{tstr, newlines_in, is_delim};

### ------------------------------------------------------------------ stream traits
@fn parse::iter::TokenOrPos::is_tok
props C03 C04
ensures r == (*self is Tok)

@fn parse::iter::PositionIterator::pos
ensures r == self.st().pos

@fn parse::iter::RefMut::pos
props C03

@fn parse::iter::PeekableIterator::peek
requires (*old(self)).st().wf()
ensures
  - (*final(self)).st() == (*old(self)).st()
  - (*final(self)).fin() == (*old(self)).fin()
  - head((*old(self)).st()) is None ==> r is None
  - head((*old(self)).st()) matches Some(t) ==> r is Some && *r->0 == t

@fn parse::iter::RefMut::peek
props C04

@trait parse::iter::RewindableTokenIterator
    spec fn ritems(&self) -> Seq<TokenOrPos>;
    spec fn rpos(&self) -> SourcePos;
    spec fn rnbuf(&self) -> nat;

@fn parse::iter::RewindableTokenIterator::rewind
ensures
  - (St { items: final(self).ritems(), pos: final(self).rpos() }) == norm(tokens@ + old(self).ritems(), old(self).rpos())
  - tokens@.len() > 0 && tokens@[0] is Tok ==> final(self).rnbuf() > 0

@fn parse::iter::RewindableTokenIterator::next_token_or_pos
ensures
  - step(old(self).ritems(), final(self).ritems(), r)
  - final(self).rpos() == old(self).rpos()

### ------------------------------------------------------------------ TokenIter
@impl parse::iter::TokenIter
    pub open spec fn items(&self) -> Seq<TokenOrPos> {
        self.prev_buffered@.reverse() + tok_items(self.iter.rest())
    }
    pub open spec fn st0(&self) -> St { St { items: self.items(), pos: self.pos } }

@impl Iterator for parse::iter::TokenIter
    open spec fn st(&self) -> St { self.st0() }
    #[verifier::prophetic]
    open spec fn fin(&self) -> St { arbitrary() }

@impl RewindableTokenIterator for parse::iter::TokenIter
    open spec fn ritems(&self) -> Seq<TokenOrPos> { self.items() }
    open spec fn rpos(&self) -> SourcePos { self.pos }
    open spec fn rnbuf(&self) -> nat { self.prev_buffered@.len() }

@fn parse::iter::TokenIter::pos
props C03

@fn parse::iter::TokenIter::peek
props C04

@fn parse::iter::TokenIter::next
props C03 C04
@loop 1
invariant self.items() == old(self).items() && self.pos == old(self).pos && ret is None
decreases 1nat
ensures
  - ret == head((*old(self)).st0())
  - ret is None ==> self.items() == old(self).items() && self.pos == old(self).pos
  - ret matches Some(t) ==> self.items() == old(self).items().drop_first() && self.pos == adv(old(self).pos, t)

@fn parse::iter::TokenIter::rewind
props C03 C04

@fn parse::iter::TokenIter::next_token_or_pos
props C04
@proof start
let ghost b0 = self.prev_buffered@;
let ghost r0 = self.iter.rest();
@proof end
proof {
    if b0.len() > 0 {
        assert(self.items() =~= (b0.reverse() + tok_items(r0)).drop_first());
    } else if r0.len() > 0 {
        assert(self.items() =~= (b0.reverse() + tok_items(r0)).drop_first());
    }
}

@fn parse::iter::TokenIter::new
props C03
ensures r.st0() == (St { items: tok_items(iter.raw_rest()), pos: SourcePos { byte: 0, line: 1, col: 1 } })
@proof end
proof { assert(__vx_out.items() =~= tok_items(__vx_out.iter.rest())); }

@fn parse::iter::TokenIter::with_position
props C03
ensures r.st0() == (St { items: tok_items(iter.raw_rest()), pos })

@fn parse::iter::TokenIter::multipeek
props C04
ensures
  - r.buf@.len() == 0
  - r.iter.items() == old(self).items()
  - r.iter.dpos() == old(self).pos
  - r.iter.fin_items() == final(self).items()
  - r.iter.fin_pos() == final(self).pos
  - r.iter.fin_nbuf() == final(self).prev_buffered@.len()

@fn parse::iter::TokenIter::updated_buffered_pos
props C03
ensures
  - (*final(self)).st0() == norm(old(self).items(), old(self).pos)
  - (*final(self)).st0().wf()
  - old(self).prev_buffered@.len() > 0 && old(self).prev_buffered@.last() is Tok ==> final(self).prev_buffered == old(self).prev_buffered
@loop 1
invariant
  - norm(self.items(), self.pos) == norm(old(self).items(), old(self).pos)
  - old(self).prev_buffered@.len() > 0 && old(self).prev_buffered@.last() is Tok ==> self.prev_buffered == old(self).prev_buffered
ensures self.prev_buffered@.len() > 0 ==> self.prev_buffered@.last() is Tok
decreases self.prev_buffered@.len()
@proof loop1.start
let ghost b1 = self.prev_buffered@;
let ghost i1 = self.items();
@proof loop1.end
proof {
    assert(self.prev_buffered@ =~= b1.drop_last());
    assert(self.items() =~= i1.drop_first());
}

@fn parse::iter::TokenIter::buffer_tokens_and_positions_to_yield_first
props C03 C04
ensures
  - (*final(self)).st0() == norm(tokens@ + (if token_start is Some { seq![TokenOrPos::Pos(old(self).pos)] } else { Seq::empty() }) + old(self).items(), match token_start { Some(p) => p, None => old(self).pos })
  - tokens@.len() > 0 && tokens@[0] is Tok ==> final(self).prev_buffered@.len() > 0
@proof start
proof { axiom_vec_len(tokens); }
let ghost t0 = tokens@;
let ghost i0 = self.items();
let ghost b0 = self.prev_buffered@;
let ghost p0 = seq![TokenOrPos::Pos(self.pos)];
@proof before-call updated_buffered_pos
proof {
    assert(self.prev_buffered@.reverse() =~= t0 + (if token_start is Some { p0 } else { Seq::empty() }) + b0.reverse());
    assert(self.items() =~= t0 + (if token_start is Some { p0 } else { Seq::empty() }) + i0);
}

@fn parse::iter::TokenIter::buffer_tokens_to_yield_first
props C03 C04
ensures (*final(self)).st0() == norm(buf@ + seq![TokenOrPos::Pos(old(self).pos)] + old(self).items(), buf_start)

### ------------------------------------------------------------------ Multipeek
@impl parse::iter::Multipeek
    /// Everything the stream will yield, the tokens seen so far included.
    pub open spec fn all(&self) -> Seq<TokenOrPos> { self.buf@ + self.iter.items() }
    /// The number of tokens seen so far.
    pub open spec fn seen(&self) -> nat { toks(self.buf@).len() }

@fn parse::iter::Multipeek::new
props C04
ensures
  - r.buf@.len() == 0
  - r.iter.items() == old(iter).ritems()
  - r.iter.dpos() == old(iter).rpos()
  - r.iter.fin_items() == final(iter).ritems()
  - r.iter.fin_pos() == final(iter).rpos()
  - r.iter.fin_nbuf() == final(iter).rnbuf()

@fn parse::iter::Multipeek::vx_drop
props C04
ensures
  - (St { items: self.iter.fin_items(), pos: self.iter.fin_pos() }) == norm(self.buf@ + self.iter.items(), self.iter.dpos())
  - self.buf@.len() > 0 && self.buf@[0] is Tok ==> self.iter.fin_nbuf() > 0
@proof end
__vx_self.iter.resolve();

@fn parse::iter::Multipeek::peek_next
props C04
ensures
  - final(self).buf@ + final(self).iter.items() == old(self).buf@ + old(self).iter.items()
  - final(self).iter.dpos() == old(self).iter.dpos()
  - final(self).iter.fin_items() == old(self).iter.fin_items()
  - final(self).iter.fin_pos() == old(self).iter.fin_pos()
  - final(self).iter.fin_nbuf() == old(self).iter.fin_nbuf()
  - r matches Some(t) ==> toks(final(self).buf@) == toks(old(self).buf@).push(*t)
  - r matches Some(t) ==> final(self).buf@.len() > 0 && final(self).buf@.last() == TokenOrPos::Tok(*t)
  - r is None ==> toks(old(self).iter.items()).len() == 0 && toks(final(self).buf@) == toks(old(self).buf@)
  - final(self).all() == old(self).all()
  - r matches Some(t) ==> old(self).seen() < toks(old(self).all()).len() && *t == toks(old(self).all())[old(self).seen() as int] && final(self).seen() == old(self).seen() + 1
  - r is None ==> old(self).seen() == toks(old(self).all()).len() && final(self).seen() == old(self).seen()
@proof end
proof {
    lemma_toks_add(old(self).buf@, old(self).iter.items());
    lemma_toks_add(self.buf@, self.iter.items());
}
@loop 1
invariant
  - self.buf@ + self.iter.items() =~= old(self).buf@ + old(self).iter.items()
  - self.iter.dpos() == old(self).iter.dpos()
  - self.iter.fin_items() == old(self).iter.fin_items()
  - self.iter.fin_pos() == old(self).iter.fin_pos()
  - self.iter.fin_nbuf() == old(self).iter.fin_nbuf()
invariant_except_break
  - toks(self.buf@) == toks(old(self).buf@)
ensures
  - self.buf@.len() > 0 && self.buf@.last() is Tok
  - toks(self.buf@) == toks(old(self).buf@).push(self.buf@.last()->Tok_0)
decreases self.iter.items().len()
@proof loop1.start
let ghost m1 = *self;
@proof after-call push
proof {
    assert(self.buf@.drop_last() =~= m1.buf@);
    assert(self.buf@ + self.iter.items() =~= m1.buf@ + m1.iter.items());
    lemma_toks_push(m1.buf@, self.buf@);
    lemma_toks_first(m1.iter.items());
}
@proof before-call return
proof {
    assert(m1.iter.items().len() == 0);
    lemma_toks_add(m1.buf@, m1.iter.items());
    lemma_toks_add(old(self).buf@, old(self).iter.items());
}

@fingerprint attr parse::iter::TokenIter = #[verifier::reject_recursive_types(I)]
@fingerprint attr parse::iter::TokenIterWrapper = #[verifier::reject_recursive_types(I)]
@fingerprint attr parse::iter::Balanced = #[verifier::reject_recursive_types(I)]
@fingerprint attr parse::iter::BacktickBackslashRemover = #[verifier::reject_recursive_types(I)]
@fingerprint attr lexer::Lexer = #[verifier::reject_recursive_types(I)]
@fingerprint attr parse::Parser = #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)]
@fingerprint attr parse::ParserIterator = #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)]

### ------------------------------------------------------------------ TokenIterWrapper
@impl parse::iter::TokenIterWrapper
    pub open spec fn items(&self) -> Seq<TokenOrPos> {
        match self {
            TokenIterWrapper::Regular(i) => i.items(),
            TokenIterWrapper::Buffered(i) => i.items(),
        }
    }
    pub open spec fn wpos(&self) -> SourcePos {
        match self {
            TokenIterWrapper::Regular(i) => i.pos,
            TokenIterWrapper::Buffered(i) => i.pos,
        }
    }
    pub open spec fn nbuf(&self) -> nat {
        match self {
            TokenIterWrapper::Regular(i) => i.prev_buffered@.len(),
            TokenIterWrapper::Buffered(i) => i.prev_buffered@.len(),
        }
    }
    pub open spec fn st0(&self) -> St { St { items: self.items(), pos: self.wpos() } }

@impl Iterator for parse::iter::TokenIterWrapper
    open spec fn st(&self) -> St { self.st0() }
    #[verifier::prophetic]
    open spec fn fin(&self) -> St { arbitrary() }

@fn parse::iter::TokenIterWrapper::pos
props C03

@fn parse::iter::TokenIterWrapper::peek
props C04

@fn parse::iter::TokenIterWrapper::next
props C03 C04

@fn parse::iter::TokenIterWrapper::multipeek
props C04
ensures
  - r.buf@.len() == 0
  - r.iter.items() == old(self).items()
  - r.iter.dpos() == old(self).wpos()
  - r.iter.fin_items() == final(self).items()
  - r.iter.fin_pos() == final(self).wpos()
  - r.iter.fin_nbuf() == final(self).nbuf()

@fn parse::iter::TokenIterWrapper::buffer_tokens_to_yield_first
props C03 C04
ensures (*final(self)).st0() == norm(buf@ + seq![TokenOrPos::Pos(old(self).wpos())] + old(self).items(), buf_start)
