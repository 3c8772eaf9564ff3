### Functions a property rests on besides the ones it is about: its check verifies them as well.
@fn parse::Parser::skip_whitespace
props C13 C15 C16 C24 C12
@fn parse::Parser::newline
props C13 C24
@fn parse::Parser::linebreak
props C13 C24
@fn parse::Parser::peek_reserved_word
props C24
@fn parse::Parser::reserved_token
props C24
@fn parse::Parser::reserved_word
props C24
@fn parse::Parser::peek_reserved_token
props C16 C24
@fn parse::iter::TokenIter::with_position
props C17 C23
@fn parse::iter::TokenIter::updated_buffered_pos
props C17 C23
@fn parse::iter::TokenIter::buffer_tokens_and_positions_to_yield_first
props C17 C23
@fn parse::iter::TokenIter::buffer_tokens_to_yield_first
props C17
@fn parse::iter::TokenIterWrapper::buffer_tokens_to_yield_first
props C17
@fn parse::iter::TokenIter::next
props C17 C15 C23
@fn parse::iter::TokenIterWrapper::next
props C17 C15 C23
@fn parse::iter::Balanced::next
props C17 C15 C23
@fn parse::iter::BacktickBackslashRemover::next
props C17
@fn parse::iter::BacktickBackslashRemover::new
props C17
@fn parse::iter::Balanced::new
props C15 C23
@fn parse::iter::TokenIterator::single_quoted
props C15 C23
@fn parse::iter::TokenIterator::double_quoted
props C15 C23
@fn parse::iter::TokenIterator::balanced
props C15 C23
@fn parse::Parser::word_preserve_trailing_whitespace
props C15 C24
@fn parse::SourcePos::advance
props C23
@fn parse::SourcePos::advance_tabs
props C23
@fn parse::SourcePos::new
props C23
@fn parse::iter::Balanced::pos
props C23
@fn parse::iter::TokenIterator::backticked
props C23
@fn parse::iter::TokenIter::pos
props C23
@fn parse::iter::TokenIterWrapper::pos
props C23
@fn parse::iter::Multipeek::vx_drop
props C23
@fn parse::iter::BacktickBackslashRemover::create_token_iter
props C23
@fn parse::Parser::parameter_inner
props C22
