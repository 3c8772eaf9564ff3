@mod token
/// The source form of a token.
pub open spec fn tstr(t: Token) -> Seq<char> {
    match t {
        Token::Newline => seq!['\n'],
        Token::ParenOpen => seq!['('],
        Token::ParenClose => seq![')'],
        Token::CurlyOpen => seq!['{'],
        Token::CurlyClose => seq!['}'],
        Token::SquareOpen => seq!['['],
        Token::SquareClose => seq![']'],
        Token::Bang => seq!['!'],
        Token::Tilde => seq!['~'],
        Token::Pound => seq!['#'],
        Token::Star => seq!['*'],
        Token::Question => seq!['?'],
        Token::Backslash => seq!['\\'],
        Token::Percent => seq!['%'],
        Token::Dash => seq!['-'],
        Token::Equals => seq!['='],
        Token::Plus => seq!['+'],
        Token::Colon => seq![':'],
        Token::At => seq!['@'],
        Token::Caret => seq!['^'],
        Token::Slash => seq!['/'],
        Token::Comma => seq![','],
        Token::SingleQuote => seq!['\''],
        Token::DoubleQuote => seq!['"'],
        Token::Backtick => seq!['`'],
        Token::Dollar => seq!['$'],
        Token::Semi => seq![';'],
        Token::Amp => seq!['&'],
        Token::Less => seq!['<'],
        Token::Great => seq!['>'],
        Token::Pipe => seq!['|'],
        Token::AndIf => seq!['&', '&'],
        Token::OrIf => seq!['|', '|'],
        Token::DSemi => seq![';', ';'],
        Token::DLess => seq!['<', '<'],
        Token::DGreat => seq!['>', '>'],
        Token::GreatAnd => seq!['>', '&'],
        Token::LessAnd => seq!['<', '&'],
        Token::DLessDash => seq!['<', '<', '-'],
        Token::Clobber => seq!['>', '|'],
        Token::LessGreat => seq!['<', '>'],
        Token::Whitespace(s) => s@,
        Token::Name(s) => s@,
        Token::Literal(s) => s@,
        Token::ParamPositional(p) => seq!['$', pos_char(p)],
    }
}
pub open spec fn pos_char(p: Positional) -> char {
    match p {
        Positional::Zero => '0',
        Positional::One => '1',
        Positional::Two => '2',
        Positional::Three => '3',
        Positional::Four => '4',
        Positional::Five => '5',
        Positional::Six => '6',
        Positional::Seven => '7',
        Positional::Eight => '8',
        Positional::Nine => '9',
    }
}
/// Newlines inside a token (quoted or external tokens may embed them).
pub open spec fn newlines_in(t: Token) -> nat {
    match t {
        Token::Newline => 1,
        Token::Whitespace(s) => crate::vf::count_nl(s@),
        Token::Name(s) => crate::vf::count_nl(s@),
        Token::Literal(s) => crate::vf::count_nl(s@),
        _ => 0,
    }
}
/// Tokens which end an unquoted word.
pub open spec fn is_delim(t: Token) -> bool {
    match t {
        Token::Newline | Token::ParenOpen | Token::ParenClose | Token::Semi | Token::Amp
        | Token::Less | Token::Great | Token::Pipe | Token::AndIf | Token::OrIf | Token::DSemi
        | Token::DLess | Token::DGreat | Token::GreatAnd | Token::LessAnd | Token::DLessDash
        | Token::Clobber | Token::LessGreat | Token::Whitespace(_) => true,
        _ => false,
    }
}
pub proof fn lemma_tstr_nonempty(t: Token)
    ensures
        !(t is Whitespace || t is Name || t is Literal) ==> tstr(t).len() > 0,
{ }

@fn token::Token::as_str
ensures
  [C01] r@ == tstr(*self)
  - r@ == tstr(*self)
@proof start
proof {
    reveal_strlit("\n"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("{"); reveal_strlit("}");
    reveal_strlit("["); reveal_strlit("]"); reveal_strlit("$"); reveal_strlit("!"); reveal_strlit(";");
    reveal_strlit("&"); reveal_strlit("|"); reveal_strlit("&&"); reveal_strlit("||"); reveal_strlit(";;");
    reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("<<"); reveal_strlit(">>"); reveal_strlit(">&");
    reveal_strlit("<&"); reveal_strlit("<<-"); reveal_strlit(">|"); reveal_strlit("<>"); reveal_strlit("~");
    reveal_strlit("#"); reveal_strlit("*"); reveal_strlit("?"); reveal_strlit("\\"); reveal_strlit("%");
    reveal_strlit("-"); reveal_strlit("="); reveal_strlit("+"); reveal_strlit(":"); reveal_strlit("@");
    reveal_strlit("^"); reveal_strlit("/"); reveal_strlit(","); reveal_strlit("\'"); reveal_strlit("\"");
    reveal_strlit("`"); reveal_strlit("$0"); reveal_strlit("$1"); reveal_strlit("$2"); reveal_strlit("$3");
    reveal_strlit("$4"); reveal_strlit("$5"); reveal_strlit("$6"); reveal_strlit("$7"); reveal_strlit("$8");
    reveal_strlit("$9");
}
@proof end
proof {
    assert(__vx_out@ =~= tstr(*self));
}

@fn token::Token::len
props C03
ensures r as nat == crate::vf::blen(tstr(*self))

@fn token::Token::is_empty
props C01
ensures r == (tstr(*self).len() == 0)
@proof start
proof { crate::vf::lemma_blen_pos(tstr(*self)); }

@fn token::Token::is_word_delimiter
props C10 C15
ensures r == is_delim(*self)

@fn token::Positional::as_num
props C18
ensures r as int == pos_char(*self) as int - '0' as int

@fn token::Positional::from_num
props C18
ensures
  - num > 9 ==> r is None
  - num <= 9 ==> r is Some && pos_char(r->0) as int == 48 + num as int
@mod token
impl crate::vf::VxLen for Token {
    open spec fn len_spec(&self) -> nat { crate::vf::blen(tstr(*self)) }
    fn vx_len(&self) -> (r: usize) { self.len() }
}
