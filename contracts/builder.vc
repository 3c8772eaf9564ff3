### ------------------------------------------------------------------ builders
### What a builder does is described by a state of its own and by what each method makes of it: `X_of`
### gives the result of the method and the state after it. (Every run of any builder is described by
### some such functions: take the list of the calls made so far as the state.) `failure` is the error
### a builder has returned; no method may be called after that.
@trait ast::builder::Builder
    spec fn bs(&self) -> BState;
    spec fn failure(&self) -> Option<Self::Error>;
    spec fn complete_command_of(b: BState, pre_cmd_comments: Vec<Newline>, list: Self::CommandList, separator: SeparatorKind, cmd_comment: Option<Newline>) -> (Result<Self::Command, Self::Error>, BState);
    spec fn and_or_list_of(b: BState, first: Self::ListableCommand, rest: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> (Result<Self::CommandList, Self::Error>, BState);
    spec fn pipeline_of(b: BState, bang: bool, cmds: Vec<(Vec<Newline>, Self::PipeableCommand )>) -> (Result<Self::ListableCommand, Self::Error>, BState);
    spec fn simple_command_of(b: BState, redirects_or_env_vars: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, redirects_or_cmd_words: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> (Result<Self::PipeableCommand, Self::Error>, BState);
    spec fn brace_group_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState);
    spec fn subshell_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState);
    spec fn loop_command_of(b: BState, kind: LoopKind, guard_body_pair: GuardBodyPairGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState);
    spec fn if_command_of(b: BState, fragments: IfFragments<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState);
    spec fn for_command_of(b: BState, fragments: ForFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState);
    spec fn case_command_of(b: BState, fragments: CaseFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState);
    spec fn compound_command_into_pipeable_of(b: BState, cmd: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState);
    spec fn function_declaration_of(b: BState, name: String, post_name_comments: Vec<Newline>, body: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState);
    spec fn comments_of(b: BState, comments: Vec<Newline>) -> (Result<(), Self::Error>, BState);
    spec fn word_of(b: BState, kind: ComplexWordKind<Self::Command>) -> (Result<Self::Word, Self::Error>, BState);
    spec fn redirect_of(b: BState, kind: RedirectKind<Self::Word>) -> (Result<Self::Redirect, Self::Error>, BState);

@fn ast::builder::Builder::complete_command
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::complete_command_of((*old(self)).bs(), pre_cmd_comments, list, separator, cmd_comment)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::and_or_list
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::and_or_list_of((*old(self)).bs(), first, rest)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::pipeline
requires
  [C14] (*old(self)).failure() is None
  [C07 C18] cmds@.len() > 0
ensures
  - (r, (*final(self)).bs()) == Self::pipeline_of((*old(self)).bs(), bang, cmds)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::simple_command
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::simple_command_of((*old(self)).bs(), redirects_or_env_vars, redirects_or_cmd_words)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::brace_group
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::brace_group_of((*old(self)).bs(), cmds, redirects)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::subshell
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::subshell_of((*old(self)).bs(), cmds, redirects)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::loop_command
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::loop_command_of((*old(self)).bs(), kind, guard_body_pair, redirects)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::if_command
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::if_command_of((*old(self)).bs(), fragments, redirects)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::for_command
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::for_command_of((*old(self)).bs(), fragments, redirects)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::case_command
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::case_command_of((*old(self)).bs(), fragments, redirects)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::compound_command_into_pipeable
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::compound_command_into_pipeable_of((*old(self)).bs(), cmd)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::function_declaration
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::function_declaration_of((*old(self)).bs(), name, post_name_comments, body)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::comments
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::comments_of((*old(self)).bs(), comments)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::word
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::word_of((*old(self)).bs(), kind)
  - (*final(self)).failure() == err_of(r)

@fn ast::builder::Builder::redirect
requires [C14] (*old(self)).failure() is None
ensures
  - (r, (*final(self)).bs()) == Self::redirect_of((*old(self)).bs(), kind)
  - (*final(self)).failure() == err_of(r)

@impl Builder for ast::builder::RefMut
    open spec fn bs(&self) -> BState { (**self).bs() }
    open spec fn failure(&self) -> Option<Self::Error> { (**self).failure() }
    open spec fn complete_command_of(b: BState, pre_cmd_comments: Vec<Newline>, list: Self::CommandList, separator: SeparatorKind, cmd_comment: Option<Newline>) -> (Result<Self::Command, Self::Error>, BState) { T::complete_command_of(b, pre_cmd_comments, list, separator, cmd_comment) }
    open spec fn and_or_list_of(b: BState, first: Self::ListableCommand, rest: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> (Result<Self::CommandList, Self::Error>, BState) { T::and_or_list_of(b, first, rest) }
    open spec fn pipeline_of(b: BState, bang: bool, cmds: Vec<(Vec<Newline>, Self::PipeableCommand )>) -> (Result<Self::ListableCommand, Self::Error>, BState) { T::pipeline_of(b, bang, cmds) }
    open spec fn simple_command_of(b: BState, redirects_or_env_vars: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, redirects_or_cmd_words: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> (Result<Self::PipeableCommand, Self::Error>, BState) { T::simple_command_of(b, redirects_or_env_vars, redirects_or_cmd_words) }
    open spec fn brace_group_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::brace_group_of(b, cmds, redirects) }
    open spec fn subshell_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::subshell_of(b, cmds, redirects) }
    open spec fn loop_command_of(b: BState, kind: LoopKind, guard_body_pair: GuardBodyPairGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::loop_command_of(b, kind, guard_body_pair, redirects) }
    open spec fn if_command_of(b: BState, fragments: IfFragments<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::if_command_of(b, fragments, redirects) }
    open spec fn for_command_of(b: BState, fragments: ForFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::for_command_of(b, fragments, redirects) }
    open spec fn case_command_of(b: BState, fragments: CaseFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::case_command_of(b, fragments, redirects) }
    open spec fn compound_command_into_pipeable_of(b: BState, cmd: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { T::compound_command_into_pipeable_of(b, cmd) }
    open spec fn function_declaration_of(b: BState, name: String, post_name_comments: Vec<Newline>, body: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { T::function_declaration_of(b, name, post_name_comments, body) }
    open spec fn comments_of(b: BState, comments: Vec<Newline>) -> (Result<(), Self::Error>, BState) { T::comments_of(b, comments) }
    open spec fn word_of(b: BState, kind: ComplexWordKind<Self::Command>) -> (Result<Self::Word, Self::Error>, BState) { T::word_of(b, kind) }
    open spec fn redirect_of(b: BState, kind: RedirectKind<Self::Word>) -> (Result<Self::Redirect, Self::Error>, BState) { T::redirect_of(b, kind) }

@fn ast::builder::RefMut::complete_command
props C20
@fn ast::builder::RefMut::and_or_list
props C20
@fn ast::builder::RefMut::pipeline
props C20
@fn ast::builder::RefMut::simple_command
props C20
@fn ast::builder::RefMut::brace_group
props C20
@fn ast::builder::RefMut::subshell
props C20
@fn ast::builder::RefMut::loop_command
props C20
@fn ast::builder::RefMut::if_command
props C20
@fn ast::builder::RefMut::for_command
props C20
@fn ast::builder::RefMut::case_command
props C20
@fn ast::builder::RefMut::compound_command_into_pipeable
props C20
@fn ast::builder::RefMut::function_declaration
props C20
@fn ast::builder::RefMut::comments
props C20
@fn ast::builder::RefMut::word
props C20
@fn ast::builder::RefMut::redirect
props C20

@impl Builder for ast::builder::Box
    open spec fn bs(&self) -> BState { (**self).bs() }
    open spec fn failure(&self) -> Option<Self::Error> { (**self).failure() }
    open spec fn complete_command_of(b: BState, pre_cmd_comments: Vec<Newline>, list: Self::CommandList, separator: SeparatorKind, cmd_comment: Option<Newline>) -> (Result<Self::Command, Self::Error>, BState) { T::complete_command_of(b, pre_cmd_comments, list, separator, cmd_comment) }
    open spec fn and_or_list_of(b: BState, first: Self::ListableCommand, rest: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> (Result<Self::CommandList, Self::Error>, BState) { T::and_or_list_of(b, first, rest) }
    open spec fn pipeline_of(b: BState, bang: bool, cmds: Vec<(Vec<Newline>, Self::PipeableCommand )>) -> (Result<Self::ListableCommand, Self::Error>, BState) { T::pipeline_of(b, bang, cmds) }
    open spec fn simple_command_of(b: BState, redirects_or_env_vars: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, redirects_or_cmd_words: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> (Result<Self::PipeableCommand, Self::Error>, BState) { T::simple_command_of(b, redirects_or_env_vars, redirects_or_cmd_words) }
    open spec fn brace_group_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::brace_group_of(b, cmds, redirects) }
    open spec fn subshell_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::subshell_of(b, cmds, redirects) }
    open spec fn loop_command_of(b: BState, kind: LoopKind, guard_body_pair: GuardBodyPairGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::loop_command_of(b, kind, guard_body_pair, redirects) }
    open spec fn if_command_of(b: BState, fragments: IfFragments<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::if_command_of(b, fragments, redirects) }
    open spec fn for_command_of(b: BState, fragments: ForFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::for_command_of(b, fragments, redirects) }
    open spec fn case_command_of(b: BState, fragments: CaseFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { T::case_command_of(b, fragments, redirects) }
    open spec fn compound_command_into_pipeable_of(b: BState, cmd: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { T::compound_command_into_pipeable_of(b, cmd) }
    open spec fn function_declaration_of(b: BState, name: String, post_name_comments: Vec<Newline>, body: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { T::function_declaration_of(b, name, post_name_comments, body) }
    open spec fn comments_of(b: BState, comments: Vec<Newline>) -> (Result<(), Self::Error>, BState) { T::comments_of(b, comments) }
    open spec fn word_of(b: BState, kind: ComplexWordKind<Self::Command>) -> (Result<Self::Word, Self::Error>, BState) { T::word_of(b, kind) }
    open spec fn redirect_of(b: BState, kind: RedirectKind<Self::Word>) -> (Result<Self::Redirect, Self::Error>, BState) { T::redirect_of(b, kind) }

@fn ast::builder::Box::complete_command
props C20
@fn ast::builder::Box::and_or_list
props C20
@fn ast::builder::Box::pipeline
props C20
@fn ast::builder::Box::simple_command
props C20
@fn ast::builder::Box::brace_group
props C20
@fn ast::builder::Box::subshell
props C20
@fn ast::builder::Box::loop_command
props C20
@fn ast::builder::Box::if_command
props C20
@fn ast::builder::Box::for_command
props C20
@fn ast::builder::Box::case_command
props C20
@fn ast::builder::Box::compound_command_into_pipeable
props C20
@fn ast::builder::Box::function_declaration
props C20
@fn ast::builder::Box::comments
props C20
@fn ast::builder::Box::word
props C20
@fn ast::builder::Box::redirect
props C20

@impl Builder for ast::builder::empty_builder::EmptyBuilder
    open spec fn bs(&self) -> BState { arbitrary() }
    open spec fn failure(&self) -> Option<Self::Error> { None }
    open spec fn complete_command_of(b: BState, pre_cmd_comments: Vec<Newline>, list: Self::CommandList, separator: SeparatorKind, cmd_comment: Option<Newline>) -> (Result<Self::Command, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn and_or_list_of(b: BState, first: Self::ListableCommand, rest: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> (Result<Self::CommandList, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn pipeline_of(b: BState, bang: bool, cmds: Vec<(Vec<Newline>, Self::PipeableCommand )>) -> (Result<Self::ListableCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn simple_command_of(b: BState, redirects_or_env_vars: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, redirects_or_cmd_words: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> (Result<Self::PipeableCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn brace_group_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn subshell_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn loop_command_of(b: BState, kind: LoopKind, guard_body_pair: GuardBodyPairGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn if_command_of(b: BState, fragments: IfFragments<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn for_command_of(b: BState, fragments: ForFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn case_command_of(b: BState, fragments: CaseFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn compound_command_into_pipeable_of(b: BState, cmd: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn function_declaration_of(b: BState, name: String, post_name_comments: Vec<Newline>, body: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn comments_of(b: BState, comments: Vec<Newline>) -> (Result<(), Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn word_of(b: BState, kind: ComplexWordKind<Self::Command>) -> (Result<Self::Word, Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn redirect_of(b: BState, kind: RedirectKind<Self::Word>) -> (Result<Self::Redirect, Self::Error>, BState) { (Ok(()), arbitrary()) }

@fn ast::builder::empty_builder::EmptyBuilder::complete_command
props C20
@fn ast::builder::empty_builder::EmptyBuilder::and_or_list
props C20
@fn ast::builder::empty_builder::EmptyBuilder::pipeline
props C20
@fn ast::builder::empty_builder::EmptyBuilder::simple_command
props C20
@fn ast::builder::empty_builder::EmptyBuilder::brace_group
props C20
@fn ast::builder::empty_builder::EmptyBuilder::subshell
props C20
@fn ast::builder::empty_builder::EmptyBuilder::loop_command
props C20
@fn ast::builder::empty_builder::EmptyBuilder::if_command
props C20
@fn ast::builder::empty_builder::EmptyBuilder::for_command
props C20
@fn ast::builder::empty_builder::EmptyBuilder::case_command
props C20
@fn ast::builder::empty_builder::EmptyBuilder::compound_command_into_pipeable
props C20
@fn ast::builder::empty_builder::EmptyBuilder::function_declaration
props C20
@fn ast::builder::empty_builder::EmptyBuilder::comments
props C20
@fn ast::builder::empty_builder::EmptyBuilder::word
props C20
@fn ast::builder::empty_builder::EmptyBuilder::redirect
props C20
