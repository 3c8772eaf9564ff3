### ------------------------------------------------------------------ loops
@fn parse::Parser::and_or_list
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)

@fn parse::Parser::pipeline
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
ensures ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)

@fn parse::Parser::simple_command
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - vars@.len() > 0 || cmd_args@.len() > 0 ==> ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)
@loop 2
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - vars@.len() > 0 || cmd_args@.len() > 0 ==> ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)

@fn parse::Parser::redirect_list
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)

@fn parse::Parser::redirect
@loop 1
invariant true
decreases __vx_it1.rest().len()
@loop 2
invariant true
decreases __vx_it2.rest().len()

@fn parse::Parser::word_preserve_trailing_whitespace_raw_with_delim
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
  - words@.len() > 0 ==> ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
ensures words@.len() > 0 ==> ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)
@proof loop1.start
let ghost s1 = self.st0();
@proof before:loop2
let ghost fin2 = __vx_it1.iter.fin();
@loop 2
invariant
  - __vx_it1.iter.st().wf()
  - ntoks(__vx_it1.iter.st().items) < ntoks(s1.items)
  - __vx_it1.iter.fin() == fin2
decreases bal_measure(__vx_it1.bst()), (if __vx_it1.bst().done && __vx_it1.bst().esc is None { 0nat } else { 1nat })
@proof loop2.start
proof { lemma_bal_step(__vx_it1.bst()); }

@fn parse::Parser::word_interpolated_raw
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)

@fn parse::Parser::parameter_substitution_word_raw
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)
@proof loop1.start
let ghost s1 = self.st0();
@loop 2
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks(s1.items)
decreases ntoks(self.st0().items)

@fn parse::Parser::if_command
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)

@fn parse::Parser::for_command
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks(self.st0().items)

@fn parse::Parser::case_command
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - pre_esac_comments is None
decreases ntoks(self.st0().items)
@proof loop1.start
let ghost s1 = self.st0();
@loop 2
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks(s1.items)
ensures ntoks(self.st0().items) < ntoks(s1.items)
decreases ntoks(self.st0().items)

@fn parse::Parser::command_group_internal
@loop 1
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) <= ntoks((*old(self)).st0().items)
invariant_except_break
  - trailing_comments@ =~= Seq::<builder::Newline>::empty()
decreases ntoks(self.st0().items)
@loop 2
invariant true
decreases __vx_it1.rest().len()
@loop 3
invariant true
decreases __vx_it2.rest().len()

### what the token level functions do to the length of the stream, spelled out
@fn parse::Parser::peek_reserved_word
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - r is Some ==> head((*final(self)).st0()) is Some
@fn parse::Parser::peek_reserved_token
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - r is Some ==> head((*final(self)).st0()) is Some
@fn parse::Parser::reserved_word
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
@fn parse::Parser::skip_whitespace
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
@fn parse::Parser::newline
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
@fn parse::Parser::linebreak
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
@fn parse::Parser::make_unexpected_err
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  - !(r is Custom)


@fn parse::Parser::backticked_raw
@proof after-let backtick_pos
let ghost q0 = after(self.st0());
let ghost qr = bal_run(bal_init(q0, Some((Token::Backtick, backtick_pos))));
proof {
    lemma_bal_run(bal_init(q0, Some((Token::Backtick, backtick_pos))));
    lemma_put_back(strip(qr.toks), q0.pos, St { items: Seq::empty(), pos: qr.end.pos });
}

@fn parse::Parser::newline
@proof end
proof { lemma_skip((*old(self)).st0()); lemma_comment_end(skip((*old(self)).st0())); lemma_newline_of((*old(self)).st0()); }
