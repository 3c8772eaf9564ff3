### not for C07 C08 C14 (the contracts of the other files stand on their own)
### ------------------------------------------------------------------ every parser function computes the grammar
@fn parse::Parser::parameter_raw
props C22 C23
ensures
  [C22] gives(r, (*final(self)).ps(), g_parameter_raw::<B>((*old(self)).ps()))
  [C23] fails(r, g_parameter_raw::<B>((*old(self)).ps()))

@fn parse::Parser::parameter
props C22 C23
ensures
  [C22] gives(r, (*final(self)).ps(), g_parameter::<B>((*old(self)).ps()))
  [C23] fails(r, g_parameter::<B>((*old(self)).ps()))

@fn parse::Parser::parameter_substitution_raw
props C22 C23
ensures
  [C22] gives(r, (*final(self)).ps(), g_param_subst::<B>((*old(self)).ps()))
  [C23] fails(r, g_param_subst::<B>((*old(self)).ps()))

@fn parse::Parser::parameter_substitution_body_raw
props C22 C23
ensures
  [C22] gives(r, (*final(self)).ps(), g_subst_body::<B>(param, curly_open_pos, (*old(self)).ps()))
  [C23] fails(r, g_subst_body::<B>(param, curly_open_pos, (*old(self)).ps()))

@fn parse::Parser::parameter_substitution_word_raw
props C22 C23
ensures
  [C22] gives(r, (*final(self)).ps(), g_subst_word::<B>(curly_open_pos, (*old(self)).ps()))
  [C23] fails(r, g_subst_word::<B>(curly_open_pos, (*old(self)).ps()))

@fn parse::Parser::backticked_raw
props C15 C23
ensures
  [C15] gives(r, (*final(self)).ps(), g_backticked_raw::<B>((*old(self)).ps()))
  [C23] fails(r, g_backticked_raw::<B>((*old(self)).ps()))

@fn parse::Parser::backticked_command_substitution
props C15 C23
ensures
  [C15] gives(r, (*final(self)).ps(), g_backticked::<B>((*old(self)).ps()))
  [C23] fails(r, g_backticked::<B>((*old(self)).ps()))

@fn parse::Parser::word
props C15 C23
ensures
  [C15] gives(r, (*final(self)).ps(), g_word::<B>((*old(self)).ps()))
  [C23] fails(r, g_word::<B>((*old(self)).ps()))

@fn parse::Parser::word_preserve_trailing_whitespace
props C15 C23
ensures
  [C15] gives(r, (*final(self)).ps(), g_word_keep::<B>((*old(self)).ps()))
  [C23] fails(r, g_word_keep::<B>((*old(self)).ps()))

@fn parse::Parser::word_preserve_trailing_whitespace_raw
props C15 C23
ensures
  [C15] gives(r, (*final(self)).ps(), g_word_delim::<B>(None, (*old(self)).ps()))
  [C23] fails(r, g_word_delim::<B>(None, (*old(self)).ps()))

@fn parse::Parser::word_preserve_trailing_whitespace_raw_with_delim
props C15 C23
ensures
  [C15] gives(r, (*final(self)).ps(), g_word_delim::<B>(delim, (*old(self)).ps()))
  [C23] fails(r, g_word_delim::<B>(delim, (*old(self)).ps()))

@fn parse::Parser::redirect
props C16 C23
ensures
  [C16] gives(r, (*final(self)).ps(), g_redirect::<B>((*old(self)).ps()))
  [C23] fails(r, g_redirect::<B>((*old(self)).ps()))

@fn parse::Parser::redirect_list
props C16 C23
ensures
  [C16] gives(r, (*final(self)).ps(), g_redirects::<B>((*old(self)).ps()))
  [C23] fails(r, g_redirects::<B>((*old(self)).ps()))

@fn parse::Parser::redirect_heredoc
props C17 C23
ensures
  [C17] gives(r, (*final(self)).ps(), g_heredoc::<B>(src_fd, (*old(self)).ps()))
  [C23] fails(r, g_heredoc::<B>(src_fd, (*old(self)).ps()))

@fn parse::Parser::simple_command
props C16 C23
ensures
  [C16] gives(r, (*final(self)).ps(), g_simple::<B>((*old(self)).ps()))
  [C23] fails(r, g_simple::<B>((*old(self)).ps()))

@fn parse::Parser::subshell_internal
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_subshell_internal::<B>(empty_body_ok, (*old(self)).ps()))
  [C23] fails(r, g_subshell_internal::<B>(empty_body_ok, (*old(self)).ps()))

@fn parse::Parser::subshell
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_subshell_internal::<B>(false, (*old(self)).ps()))
  [C23] fails(r, g_subshell_internal::<B>(false, (*old(self)).ps()))

@fn parse::Parser::do_group
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_do_group::<B>((*old(self)).ps()))
  [C23] fails(r, g_do_group::<B>((*old(self)).ps()))

@fn parse::Parser::brace_group
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_brace_group::<B>((*old(self)).ps()))
  [C23] fails(r, g_brace_group::<B>((*old(self)).ps()))

@fn parse::Parser::loop_command
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_loop::<B>((*old(self)).ps()))
  [C23] fails(r, g_loop::<B>((*old(self)).ps()))

@fn parse::Parser::if_command
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_if::<B>((*old(self)).ps()))
  [C23] fails(r, g_if::<B>((*old(self)).ps()))

@fn parse::Parser::for_command
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_for::<B>((*old(self)).ps()))
  [C23] fails(r, g_for::<B>((*old(self)).ps()))

@fn parse::Parser::case_command
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_case::<B>((*old(self)).ps()))
  [C23] fails(r, g_case::<B>((*old(self)).ps()))

@fn parse::Parser::compound_command_internal
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_compound::<B>(kw, (*old(self)).ps()))
  [C23] fails(r, g_compound::<B>(kw, (*old(self)).ps()))

@fn parse::Parser::compound_command
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_compound::<B>(None, (*old(self)).ps()))
  [C23] fails(r, g_compound::<B>(None, (*old(self)).ps()))

@fn parse::Parser::function_declaration_internal
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_fn_internal::<B>((*old(self)).ps()))
  [C23] fails(r, g_fn_internal::<B>((*old(self)).ps()))

@fn parse::Parser::function_declaration
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_fn::<B>((*old(self)).ps()))
  [C23] fails(r, g_fn::<B>((*old(self)).ps()))

@fn parse::Parser::maybe_function_declaration
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_maybe_fn::<B>((*old(self)).ps()))
  [C23] fails(r, g_maybe_fn::<B>((*old(self)).ps()))

@fn parse::Parser::command
props C24 C13 C23
ensures
  [C24 C13] gives(r, (*final(self)).ps(), g_command::<B>((*old(self)).ps()))
  [C23] fails(r, g_command::<B>((*old(self)).ps()))

@fn parse::Parser::pipeline
props C13 C23
ensures
  [C13] gives(r, (*final(self)).ps(), g_pipeline::<B>((*old(self)).ps()))
  [C23] fails(r, g_pipeline::<B>((*old(self)).ps()))

@fn parse::Parser::and_or_list
props C13 C23
ensures
  [C13] gives(r, (*final(self)).ps(), g_and_or::<B>((*old(self)).ps()))
  [C23] fails(r, g_and_or::<B>((*old(self)).ps()))

@fn parse::Parser::complete_command_with_leading_comments
props C13 C23
ensures
  [C13] gives(r, (*final(self)).ps(), g_complete_with::<B>(pre_cmd_comments, (*old(self)).ps()))
  [C23] fails(r, g_complete_with::<B>(pre_cmd_comments, (*old(self)).ps()))

@fn parse::Parser::complete_command
props C13 C23
ensures
  [C13] gives(r, (*final(self)).ps(), g_complete::<B>((*old(self)).ps()))
  [C23] fails(r, g_complete::<B>((*old(self)).ps()))

@fn parse::Parser::command_group
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_group::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, (*old(self)).ps()))
  [C23] fails(r, g_group::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, (*old(self)).ps()))

@fn parse::Parser::command_group_internal
props C24 C23
ensures
  [C24] gives(r, (*final(self)).ps(), g_group_internal::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, (*old(self)).ps()))
  [C23] fails(r, g_group_internal::<B>(cfg.reserved_words@, cfg.reserved_tokens@, cfg.exact_tokens@, (*old(self)).ps()))

@fn parse::Parser::word_interpolated_raw
props C15 C23
ensures
  [C15] match g_interp_from::<B>(delim, start_pos, Seq::empty(), Seq::empty(), (*old(self)).ps()) { Ok((w, q)) => r matches Ok(v) && v@ == w && (*final(self)).ps() == q, Err(_) => r is Err }
  [C23] match g_interp_from::<B>(delim, start_pos, Seq::empty(), Seq::empty(), (*old(self)).ps()) { Ok(_) => true, Err(e) => r matches Err(x) && x == e }

@fn parse::ParserIterator::next
ensures
  [C09] old(self).parser is None ==> r is None
  [C09] r is None || r->0 is Err ==> final(self).parser is None
  [C09] old(self).parser matches Some(p) ==> (match g_complete::<B>(p.ps()) { Ok((Some(c), q)) => r == Some(Ok::<B::Command, ParseError<B::Error>>(c)) && final(self).parser is Some && final(self).parser->0.ps() == q, Ok((None, _)) => r is None, Err(e) => r == Some(Err::<B::Command, ParseError<B::Error>>(e)) })
