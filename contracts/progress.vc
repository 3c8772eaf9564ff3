### ------------------------------------------------------------------ every parser function
### Common to all of them: the stream stays well formed, no token appears out of nowhere (and successful
### ones that must make progress do), a builder error is returned at once and nothing else is a custom
### error, and they end.

@fn parse::Parser::subshell_internal
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 1nat

@fn parse::Parser::subshell
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 2nat

@fn parse::Parser::do_group
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 3nat

@fn parse::Parser::brace_group
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 3nat

@fn parse::Parser::loop_command
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 4nat

@fn parse::Parser::if_command
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 4nat

@fn parse::Parser::for_command
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 4nat

@fn parse::Parser::case_command
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 4nat

@fn parse::Parser::parameter_substitution_body_raw
props C07 C08 C14 C22
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
decreases ntoks((*old(self)).st0().items), 5nat

@fn parse::Parser::parameter_substitution_raw
props C07 C08 C14 C22
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
decreases ntoks((*old(self)).st0().items), 6nat

@fn parse::Parser::parameter_raw
props C07 C08 C14 C22
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 7nat

@fn parse::Parser::backticked_raw
props C07 C08 C14 C06
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 7nat

@fn parse::Parser::parameter
props C07 C08 C14 C22
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 8nat

@fn parse::Parser::backticked_command_substitution
props C07 C08 C14 C06
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 8nat

@fn parse::Parser::word_interpolated_raw
props C07 C08 C14 C15
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
decreases ntoks((*old(self)).st0().items), 9nat

@fn parse::Parser::word_preserve_trailing_whitespace_raw_with_delim
props C07 C08 C14 C15
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r matches Ok(Some(_)) ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 10nat

@fn parse::Parser::parameter_substitution_word_raw
props C07 C08 C14 C22
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
decreases ntoks((*old(self)).st0().items), 11nat

@fn parse::Parser::word_preserve_trailing_whitespace_raw
props C07 C08 C14 C15
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r matches Ok(Some(_)) ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 11nat

@fn parse::Parser::word_preserve_trailing_whitespace
props C07 C08 C14 C15
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r matches Ok(Some(_)) ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 12nat

@fn parse::Parser::word
props C07 C08 C14 C15
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r matches Ok(Some(_)) ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 13nat

@fn parse::Parser::redirect_heredoc
props C07 C08 C14 C17
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 14nat

@fn parse::Parser::redirect
props C07 C08 C14 C16
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r matches Ok(Some(_)) ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 15nat

@fn parse::Parser::redirect_list
props C07 C08 C14 C16
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
decreases ntoks((*old(self)).st0().items), 16nat

@fn parse::Parser::simple_command
props C07 C08 C14 C16
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 17nat

@fn parse::Parser::compound_command_internal
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 20nat

@fn parse::Parser::compound_command
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 21nat

@fn parse::Parser::function_declaration_internal
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 22nat

@fn parse::Parser::function_declaration
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 23nat

@fn parse::Parser::maybe_function_declaration
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r matches Ok(Some(_)) ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 24nat

@fn parse::Parser::command
props C07 C08 C14 C13
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 25nat

@fn parse::Parser::pipeline
props C07 C08 C14 C13
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 26nat

@fn parse::Parser::and_or_list
props C07 C08 C14 C13
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 27nat

@fn parse::Parser::complete_command_with_leading_comments
props C07 C08 C14 C13
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r is Ok ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 28nat

@fn parse::Parser::complete_command
props C07 C08 C14 C13
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
  [C08] r matches Ok(Some(_)) ==> ntoks((*final(self)).st0().items) < ntoks((*old(self)).st0().items)
decreases ntoks((*old(self)).st0().items), 29nat

@fn parse::Parser::command_group_internal
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
decreases ntoks((*old(self)).st0().items), 30nat

@fn parse::Parser::command_group
props C07 C08 C14 C24
requires
  - (*old(self)).st0().wf()
  [C14] (*old(self)).builder.failure() is None
ensures
  - (*final(self)).st0().wf()
  - ntoks((*final(self)).st0().items) <= ntoks((*old(self)).st0().items)
  [C14] (*final(self)).builder.failure() == custom_of(r)
decreases ntoks((*old(self)).st0().items), 31nat
