### not for C07 C08 C14
### ------------------------------------------------------------------ what is opened up where
@fn parse::Parser::parameter_raw
@proof start
proof { reveal(g_parameter_raw); }
@fn parse::Parser::parameter
@proof start
proof { reveal(g_parameter); }
@fn parse::Parser::parameter_substitution_raw
attr #[verifier::rlimit(60)]
@proof start
broadcast use gl::group_g;
proof { reveal(g_param_subst); lemma_peek(self.st0()); }
@fn parse::Parser::parameter_substitution_body_raw
@proof start
proof { reveal(g_subst_body); }
@fn parse::Parser::backticked_raw
@proof start
proof { reveal(g_backticked_raw); }
@fn parse::Parser::backticked_command_substitution
@proof start
proof { reveal(g_backticked); }
@fn parse::Parser::word
@proof start
proof { reveal(g_word); }
@fn parse::Parser::word_preserve_trailing_whitespace
@proof start
proof { reveal(g_word_keep); }
@fn parse::Parser::redirect
attr #[verifier::rlimit(50)]
@proof start
broadcast use gl::group_g;
proof { reveal(g_redirect); reveal(g_target); }
@fn parse::Parser::subshell_internal
@proof start
broadcast use gl::group_g;
proof { reveal(g_subshell_internal); }
@fn parse::Parser::do_group
@proof start
broadcast use gl::group_g;
proof { reveal(g_do_group); }
@fn parse::Parser::brace_group
@proof start
broadcast use gl::group_g;
proof { reveal(g_brace_group); }
@fn parse::Parser::loop_command
@proof start
broadcast use gl::group_g;
proof { reveal(g_loop); }
@fn parse::Parser::if_command
@proof start
broadcast use gl::group_g;
proof { reveal(g_if); }
@fn parse::Parser::for_command
attr #[verifier::rlimit(50)]
@proof start
broadcast use gl::group_g;
proof { reveal(g_for); reveal(g_for_words); }
@fn parse::Parser::compound_command_internal
@proof start
proof { reveal(g_compound); }
@fn parse::Parser::compound_command
@proof start
proof { reveal(g_compound); }
@fn parse::Parser::function_declaration_internal
attr #[verifier::rlimit(50)]
@proof start
broadcast use gl::group_g;
proof { reveal(g_fn_internal); reveal(g_fn_params); }
let ghost p0 = self.ps();
@proof after-let name
let ghost p1 = self.ps();
assert(g_fn_internal::<B>(p0) == (match g_fn_params::<B>(found_fn, p1) {
    Err(e) => Err(e),
    Ok((Some(c), q)) => Ok(((name, crate::vf::mk_vec(Seq::empty()), c), q)),
    Ok((None, q)) => {
        let l = lines_of(q.s);
        if !lt(at(q, l.1), p0) { arbitrary() } else {
            match g_compound::<B>(None, at(q, l.1)) {
                Err(e) => Err(e),
                Ok((c, q1)) => Ok(((name, crate::vf::mk_vec(l.0), c), q1)),
            }
        }
    }
}));
@proof after-let body
assert(g_fn_params::<B>(found_fn, p1) == Ok::<_, ParseError<B::Error>>((body, self.ps())));
@fn parse::Parser::function_declaration
@proof start
proof { reveal(g_fn); }
@fn parse::Parser::maybe_function_declaration
@proof start
broadcast use gl::group_g;
proof { reveal(g_maybe_fn); }
@proof after-call peek_reserved_word
proof { lemma_peek(self.st0()); }
@fn parse::Parser::command
@proof start
proof { reveal(g_command); }
@fn parse::Parser::pipeline
@proof start
proof { reveal(g_pipeline); }
@fn parse::Parser::and_or_list
@proof start
proof { reveal(g_and_or); }
@fn parse::Parser::complete_command_with_leading_comments
@proof start
proof { reveal(g_complete_with); }
@fn parse::Parser::complete_command
@proof start
proof { reveal(g_complete); }
@fn parse::Parser::command_group
@proof start
proof { reveal(g_group); }
@fn parse::Parser::command_group_internal
attr #[verifier::rlimit(50)]
@proof start
proof { reveal(g_group_internal); }

@fn parse::Parser::and_or_list
@proof before:loop1
let ghost q1 = self.ps();
proof { reveal(g_and_or_from); }
@loop 1
invariant_except_break
  [C13 C23] g_and_or_from::<B>(rest@, self.ps()) == g_and_or_from::<B>(Seq::empty(), q1)
ensures
  [C13 C23] g_and_or_from::<B>(Seq::empty(), q1) == Ok::<(Seq<(Vec<builder::Newline>, ast::AndOr<B::ListableCommand>)>, PS), ParseError<B::Error>>((rest@, self.ps()))

@fn parse::Parser::pipeline
@proof before:loop1
let ghost q1 = self.ps();
proof { reveal(g_pipe_from); }
@loop 1
invariant_except_break
  [C13 C23] g_pipe_from::<B>(cmds@, self.ps()) == g_pipe_from::<B>(Seq::empty(), q1)
ensures
  [C13 C23] g_pipe_from::<B>(Seq::empty(), q1) == Ok::<(Seq<(Vec<builder::Newline>, B::PipeableCommand)>, PS), ParseError<B::Error>>((cmds@, self.ps()))

@fn parse::Parser::redirect_list
@proof start
proof { reveal(g_redirects); reveal(g_redirects_from); }
@loop 1
invariant_except_break
  [C16 C23] g_redirects_from::<B>(list@, self.ps()) == g_redirects_from::<B>(Seq::empty(), (*old(self)).ps())
ensures
  [C16 C23] g_redirects_from::<B>(Seq::empty(), (*old(self)).ps()) == Ok::<(Seq<B::Redirect>, PS), ParseError<B::Error>>((list@, self.ps()))

@fn parse::Parser::simple_command
attr #[verifier::rlimit(50)]
@proof loop1.start
proof { reveal(g_simple); reveal(g_vars_from); }
@proof loop2.start
proof { reveal(g_args_from); }
@loop 1
isolate
invariant_except_break
  [C16 C23] g_vars_from::<B>(vars@, self.ps()) == g_vars_from::<B>(Seq::empty(), (*old(self)).ps())
  - cmd_args@.len() == 0
ensures
  [C16 C23] g_vars_from::<B>(Seq::empty(), (*old(self)).ps()) matches Ok(g) && g.1 == self.ps() && (g.0).0 == vars@ && first_arg((g.0).1) == cmd_args@
@proof after-call skip_whitespace
proof { lemma_peek(self.st0()); }
@proof before:loop2
proof { gl::lemma_simple::<B>((*old(self)).ps(), vars@, cmd_args@, self.ps()); }
let ghost q1 = self.ps();
let ghost a1 = cmd_args@;
@loop 2
isolate
invariant
  - ntoks(q1.s.items) <= ntoks((*old(self)).st0().items)
  - vars@.len() > 0 || a1.len() > 0 ==> ntoks(q1.s.items) < ntoks((*old(self)).st0().items)
  [C16 C23] g_simple::<B>((*old(self)).ps()) == simple_end::<B>(vars@, g_args_from::<B>(a1, q1))
invariant_except_break
  [C16 C23] g_args_from::<B>(cmd_args@, self.ps()) == g_args_from::<B>(a1, q1)
ensures
  [C16 C23] g_args_from::<B>(a1, q1) == Ok::<(Seq<ast::RedirectOrCmdWord<B::Redirect, B::Word>>, PS), ParseError<B::Error>>((cmd_args@, self.ps()))

@fn parse::Parser::redirect
@loop 1
invariant
  - suffix(__vx_it1.rest(), v@)
invariant_except_break
  - __vx_acc
  - forall|i: int| 0 <= i < v@.len() - __vx_it1.rest().len() ==> numeric(#[trigger] v@[i])
ensures __vx_acc == (forall|i: int| 0 <= i < v@.len() ==> numeric(#[trigger] v@[i]))
@loop 2
invariant
  - suffix(__vx_it2.rest(), v@)
invariant_except_break
  - __vx_acc
  - forall|i: int| 0 <= i < v@.len() - __vx_it2.rest().len() ==> numeric(#[trigger] v@[i])
ensures __vx_acc == (forall|i: int| 0 <= i < v@.len() ==> numeric(#[trigger] v@[i]))

@fn parse::Parser::if_command
@proof before:loop1
let ghost q1 = self.ps();
proof { reveal(g_if_from); }
@loop 1
invariant
  [C24 C23] g_if_from::<B>(start_pos, conditionals@, self.ps()) == g_if_from::<B>(start_pos, Seq::empty(), q1)

@fn parse::Parser::for_command
@proof before:loop1
let ghost q1 = self.ps();
proof { reveal(g_words_from); }
@loop 1
invariant_except_break
  [C24 C23] g_words_from::<B>(words@, self.ps()) == g_words_from::<B>(Seq::empty(), q1)
ensures
  [C24 C23] g_words_from::<B>(Seq::empty(), q1) == Ok::<(Seq<B::Word>, PS), ParseError<B::Error>>((words@, self.ps()))

@fn parse::Parser::case_command
attr #[verifier::rlimit(50)]
@proof start
broadcast use gl::group_g;
proof { reveal(g_case); reveal(g_arms_from); reveal(g_pats_from); }
@proof before:loop1
let ghost q1 = self.ps();
@loop 1
invariant_except_break
  [C24 C23] g_arms_from::<B>(start_pos, arms@, self.ps()) == g_arms_from::<B>(start_pos, Seq::empty(), q1)
ensures
  [C24 C23] g_arms_from::<B>(start_pos, Seq::empty(), q1) matches Ok(g) && g.1 == self.ps() && (g.0).0 == arms@ && (g.0).1 == or_none(pre_esac_comments)
@proof before:loop2
let ghost q2 = self.ps();
@loop 2
invariant_except_break
  [C24 C23] g_pats_from::<B>(start_pos, patterns@, self.ps()) == g_pats_from::<B>(start_pos, Seq::empty(), q2)
ensures
  [C24 C23] g_pats_from::<B>(start_pos, Seq::empty(), q2) == Ok::<(Seq<B::Word>, PS), ParseError<B::Error>>((patterns@, self.ps()))

@fn parse::Parser::command_group_internal
@proof start
broadcast use gl::group_g;
proof { reveal(g_group_from); }
@loop 1
invariant_except_break
  [C24 C23] g_group_from::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, cmds@, self.ps()) == g_group_from::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, Seq::empty(), (*old(self)).ps())
ensures
  [C24 C23] g_group_from::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, Seq::empty(), (*old(self)).ps()) == Ok::<(builder::CommandGroup<B::Command>, PS), ParseError<B::Error>>((builder::CommandGroup { commands: mk_vec(cmds@), trailing_comments: mk_vec(trailing_comments@) }, self.ps()))
@loop 2
isolate
invariant_except_break
  - suffix(__vx_it1.rest(), cfg.exact_tokens@)
  - !__vx_acc
  - forall|i: int| 0 <= i < cfg.exact_tokens@.len() - __vx_it1.rest().len() ==> #[trigger] cfg.exact_tokens@[i] != *__vx_v1
ensures __vx_acc == cfg.exact_tokens@.contains(*__vx_v1)
@loop 3
isolate
invariant_except_break
  - suffix(__vx_it2.rest(), cfg.exact_tokens@)
  - !__vx_acc
  - forall|i: int| 0 <= i < cfg.exact_tokens@.len() - __vx_it2.rest().len() ==> #[trigger] cfg.exact_tokens@[i] != *__vx_v3
ensures __vx_acc == cfg.exact_tokens@.contains(*__vx_v3)
@proof end
proof {
    axiom_vec_ext(__vx_out->Ok_0.commands); axiom_vec_ext(__vx_out->Ok_0.trailing_comments);
    assert(mk_vec(__vx_out->Ok_0.commands@) == __vx_out->Ok_0.commands);
    assert(mk_vec(__vx_out->Ok_0.trailing_comments@) == __vx_out->Ok_0.trailing_comments);
    assert(g_group_internal::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, (*old(self)).ps()) == g_group_from::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, Seq::empty(), (*old(self)).ps()));
}

@fn parse::Parser::word_preserve_trailing_whitespace_raw_with_delim
attr #[verifier::rlimit(50)]
@proof start
proof { gl::lemma_word_delim::<B>(delim, self.ps()); }
@loop 1
isolate
invariant_except_break
  [C15 C23] g_word_delim::<B>(delim, (*old(self)).ps()) == word_end(g_word_from::<B>(delim, words@, self.ps()))
ensures
  [C15 C23] g_word_delim::<B>(delim, (*old(self)).ps()) == Ok::<(Option<ComplexWordKind<B::Command>>, PS), ParseError<B::Error>>((as_word(words@), self.ps()))
@proof loop1.start
proof { reveal(g_word_from); lemma_head_dec(s1); lemma_head_dec(after(s1)); }
@proof before:loop2
let ghost n2 = bal_run(__vx_it1.bst());
@loop 2
invariant
  - buf@ + cat(fst(bal_run(__vx_it1.bst()).toks)) == cat(fst(n2.toks))
  - bal_run(__vx_it1.bst()).err == n2.err
  - bal_run(__vx_it1.bst()).end == n2.end
ensures bal_run(__vx_it1.bst()) == (BRun { toks: Seq::empty(), err: None, end: __vx_it1.bst() })
@proof loop2.start
let ghost b2 = __vx_it1.bst();
let ghost d2 = buf@;
proof {
    lemma_bal_run(b2);
    if let Some(Ok(t)) = bal_step(b2).0 { lemma_fst_one(t, b2.pos, bal_run(bal_step(b2).1).toks); }
}
@proof loop2.end
proof {
    let t = bal_step(b2).0->0->Ok_0;
    let r = bal_run(__vx_it1.bst()).toks;
    assert((d2 + tstr(t)) + cat(fst(r)) =~= d2 + (tstr(t) + cat(fst(r))));
}
@proof after:loop2
proof {
    assert(fst(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(buf@ =~= cat(fst(n2.toks)));
}

@fn parse::Parser::word_interpolated_raw
attr #[verifier::rlimit(50)]
@proof before:loop1
let ghost q1 = self.ps();
@loop 1
invariant_except_break
  [C15 C23] g_interp_from::<B>(delim, start_pos, words@, buf@, self.ps()) == g_interp_from::<B>(delim, start_pos, Seq::empty(), Seq::empty(), q1)
ensures
  [C15 C23] g_interp_from::<B>(delim, start_pos, Seq::empty(), Seq::empty(), q1) == Ok::<(Seq<SimpleWordKind<B::Command>>, PS), ParseError<B::Error>>((flush(words@, buf@), self.ps()))
@proof loop1.start
let ghost s1 = self.st0();
let ghost w1 = words@;
let ghost u1 = buf@;
proof { reveal(g_interp_from); lemma_head_dec(s1); lemma_head_dec(after(s1)); }
@proof after-call push#2
proof { assert(buf@ =~= Seq::empty()); assert(words@.drop_last() =~= flush(w1, u1)); assert(words@ =~= flush(w1, u1).push(words@.last())); }
@proof after-call push#4
proof { assert(buf@ =~= Seq::empty()); assert(words@.drop_last() =~= flush(w1, u1)); assert(words@ =~= flush(w1, u1).push(words@.last())); }
@proof after-call push#6
proof { assert(buf@ =~= Seq::empty()); assert(words@.drop_last() =~= flush(w1, u1)); assert(words@ =~= flush(w1, u1).push(words@.last())); }

@fn parse::Parser::parameter_substitution_word_raw
attr #[verifier::rlimit(50)]
@proof start
proof { reveal(g_subst_word); }
@proof before:loop1
let ghost q1 = self.ps();
@loop 1
invariant_except_break
  [C22 C23] g_subst_from::<B>(words@, self.ps()) == g_subst_from::<B>(Seq::empty(), q1)
ensures
  [C22 C23] g_subst_from::<B>(Seq::empty(), q1) == Ok::<(Seq<WordKind<B::Command>>, PS), ParseError<B::Error>>((words@, self.ps()))
@loop 2
invariant
  [C22 C23] g_subst_from::<B>(words@, self.ps()) == g_subst_from::<B>(Seq::empty(), q1)
ensures
  [C22 C23] head(self.st0()) is Some && !(head(self.st0())->0 is CurlyClose) && !taken(head(self.st0())->0) && !(head(self.st0())->0 is Backslash && head(after(self.st0())) == Some(Token::Newline))
@proof loop2.start
let ghost s2 = self.st0();
proof { reveal(g_subst_from); lemma_peek(s2); lemma_head_dec(s2); lemma_head_dec(after(s2)); }
@proof after:loop2
proof { reveal(g_subst_from); }

@fn parse::Parser::redirect_heredoc
@proof start
let ghost gh = g_heredoc::<B>(src_fd, self.ps());
proof { gl::lemma_heredoc::<B>(src_fd, self.ps()); }
@loop 1
invariant
  [C17 C23] dl.1 matches Some(e) ==> gh == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1))
  - gh == g_heredoc::<B>(src_fd, (*old(self)).ps())
@loop 3
invariant
  [C17 C23] dt.2 matches Some(e) ==> gh == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1))
  - gh == g_heredoc::<B>(src_fd, (*old(self)).ps())
@loop 4
invariant
  [C17 C23] n4.err matches Some(e) ==> gh == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1))
  - gh == g_heredoc::<B>(src_fd, (*old(self)).ps())
@loop 5
invariant
  [C17 C23] n5.err matches Some(e) ==> gh == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1))
  - gh == g_heredoc::<B>(src_fd, (*old(self)).ps())
@loop 6
invariant
  [C17 C23] r6.1 matches Some(e) ==> gh == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1))
  - gh == g_heredoc::<B>(src_fd, (*old(self)).ps())
@loop 7
invariant
  [C17 C23] rl.1 matches Some(e) ==> gh == Err::<(B::Redirect, PS), ParseError<B::Error>>(ParseError::Unmatched(e.0, e.1))
  - gh == g_heredoc::<B>(src_fd, (*old(self)).ps())
@proof before:loop15
let ghost b15 = __vx_it7.rest();
@loop 15
invariant
  [C17] __vx_acc@ + simples(__vx_it7.rest()) == simples(b15)
ensures __vx_it7.rest().len() == 0
@proof loop15.start
let ghost a15 = __vx_acc@;
let ghost r15 = __vx_it7.rest();
@proof loop15.end
proof { assert(a15.push(WordKind::Simple(r15[0])) + simples(r15.drop_first()) =~= a15 + simples(r15)); }
@proof after:loop15
proof { assert(__vx_acc@ =~= simples(b15)); }
