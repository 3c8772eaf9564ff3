@mod lexer
broadcast use {crate::vf::group_vf};
use crate::token::{tstr, pos_char};
use crate::vf::{hint_ok, VxUsize};

/// Operators which are one character long.
pub open spec fn op1(c: char) -> Option<Token> {
    match c {
        '\n' => Some(Token::Newline),
        '(' => Some(Token::ParenOpen),
        ')' => Some(Token::ParenClose),
        '{' => Some(Token::CurlyOpen),
        '}' => Some(Token::CurlyClose),
        '[' => Some(Token::SquareOpen),
        ']' => Some(Token::SquareClose),
        '!' => Some(Token::Bang),
        '~' => Some(Token::Tilde),
        '#' => Some(Token::Pound),
        '*' => Some(Token::Star),
        '?' => Some(Token::Question),
        '%' => Some(Token::Percent),
        '-' => Some(Token::Dash),
        '=' => Some(Token::Equals),
        '+' => Some(Token::Plus),
        ':' => Some(Token::Colon),
        '@' => Some(Token::At),
        '^' => Some(Token::Caret),
        '/' => Some(Token::Slash),
        ',' => Some(Token::Comma),
        '\'' => Some(Token::SingleQuote),
        '"' => Some(Token::DoubleQuote),
        '`' => Some(Token::Backtick),
        '$' => Some(Token::Dollar),
        ';' => Some(Token::Semi),
        '&' => Some(Token::Amp),
        '<' => Some(Token::Less),
        '>' => Some(Token::Great),
        '|' => Some(Token::Pipe),
        _ => None,
    }
}
/// Operators which are two characters long.
pub open spec fn op2(a: char, b: char) -> Option<Token> {
    match (a, b) {
        ('&', '&') => Some(Token::AndIf),
        ('|', '|') => Some(Token::OrIf),
        (';', ';') => Some(Token::DSemi),
        ('<', '<') => Some(Token::DLess),
        ('>', '>') => Some(Token::DGreat),
        ('>', '&') => Some(Token::GreatAnd),
        ('<', '&') => Some(Token::LessAnd),
        ('>', '|') => Some(Token::Clobber),
        ('<', '>') => Some(Token::LessGreat),
        ('$', '0') => Some(Token::ParamPositional(Positional::Zero)),
        ('$', '1') => Some(Token::ParamPositional(Positional::One)),
        ('$', '2') => Some(Token::ParamPositional(Positional::Two)),
        ('$', '3') => Some(Token::ParamPositional(Positional::Three)),
        ('$', '4') => Some(Token::ParamPositional(Positional::Four)),
        ('$', '5') => Some(Token::ParamPositional(Positional::Five)),
        ('$', '6') => Some(Token::ParamPositional(Positional::Six)),
        ('$', '7') => Some(Token::ParamPositional(Positional::Seven)),
        ('$', '8') => Some(Token::ParamPositional(Positional::Eight)),
        ('$', '9') => Some(Token::ParamPositional(Positional::Nine)),
        _ => None,
    }
}
/// The longest operator `s` starts with, and its length.
pub open spec fn opn(s: Seq<char>) -> Option<(Token, int)> {
    if s.len() >= 3 && s[0] == '<' && s[1] == '<' && s[2] == '-' { Some((Token::DLessDash, 3)) }
    else if s.len() >= 2 && op2(s[0], s[1]) is Some { Some((op2(s[0], s[1])->0, 2)) }
    else if op1(s[0]) is Some { Some((op1(s[0])->0, 1)) }
    else { None }
}
pub open spec fn is_blank(c: char) -> bool { is_whitespace(c) && c != '\n' }
pub open spec fn name_start(c: char) -> bool { c == '_' || is_alphabetic(c) }
pub open spec fn name_cont(c: char) -> bool { name_start(c) || is_digit10(c) }
/// Characters which are part of words.
pub open spec fn is_lit(c: char) -> bool { op1(c) is None && !is_whitespace(c) && c != '\\' }
pub enum Cls { Blank, Name, Lit }
impl Cls {
    pub open spec fn has(self, c: char) -> bool {
        match self { Cls::Blank => is_blank(c), Cls::Name => name_cont(c), Cls::Lit => is_lit(c) }
    }
}
/// Length of the longest prefix of `s` made of characters satisfying `p`.
pub open spec fn run_len(s: Seq<char>, p: Cls) -> int
    decreases s.len(),
{
    if s.len() > 0 && p.has(s[0]) { 1 + run_len(s.drop_first(), p) } else { 0 }
}
pub open spec fn word_len(s: Seq<char>) -> int {
    if name_start(s[0]) { run_len(s, Cls::Name) } else { run_len(s, Cls::Lit) }
}
pub open spec fn word_tok(c: char, w: Seq<char>) -> Token {
    if name_start(c) { Token::Name(mk_string(w)) } else { Token::Literal(mk_string(w)) }
}
/// The first token of `s` (which does not start with a backslash), and its length.
pub open spec fn tok1(s: Seq<char>) -> (Token, int) {
    if opn(s) is Some { opn(s)->0 }
    else if is_blank(s[0]) {
        let n = run_len(s, Cls::Blank);
        (Token::Whitespace(mk_string(s.take(n))), n)
    } else {
        (word_tok(s[0], s.take(word_len(s))), word_len(s))
    }
}
/// The token standing for a character entirely on its own.
pub open spec fn single(c: char) -> Token {
    if c == '\\' { Token::Backslash } else { tok1(seq![c]).0 }
}
/// The canonical tokens of `s`.
pub open spec fn lexall(s: Seq<char>) -> Seq<Token>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '\\' {
        if s.len() == 1 { seq![Token::Backslash] }
        else { seq![Token::Backslash, single(s[1])] + lexall(s.skip(2)) }
    } else if 0 < tok1(s).1 <= s.len() {
        seq![tok1(s).0] + lexall(s.skip(tok1(s).1))
    } else { Seq::empty() }
}
pub proof fn lemma_run_len(s: Seq<char>, p: Cls)
    ensures
        0 <= run_len(s, p) <= s.len(),
        forall|i: int| 0 <= i < run_len(s, p) ==> p.has(#[trigger] s[i]),
        run_len(s, p) < s.len() ==> !p.has(s[run_len(s, p)]),
    decreases s.len(),
{
    if s.len() > 0 && p.has(s[0]) {
        let t = s.drop_first();
        lemma_run_len(t, p);
        assert forall|i: int| 0 <= i < run_len(s, p) implies p.has(#[trigger] s[i]) by {
            if i > 0 { assert(s[i] == t[i - 1]); }
        };
        if run_len(s, p) < s.len() { assert(s[run_len(s, p)] == t[run_len(s, p) - 1]); }
    }
}
/// The run is the only prefix with these properties.
pub proof fn lemma_run_is(s: Seq<char>, p: Cls, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> p.has(#[trigger] s[i]),
        n < s.len() ==> !p.has(s[n]),
    ensures run_len(s, p) == n,
{
    lemma_run_len(s, p);
    let m = run_len(s, p);
    if m < n { assert(p.has(s[m])); }
    if n < m { assert(p.has(s[n])); }
}
pub proof fn lemma_tok1(s: Seq<char>)
    requires s.len() > 0, s[0] != '\\',
    ensures
        0 < tok1(s).1 <= s.len(),
        tstr(tok1(s).0) == s.take(tok1(s).1),
{
    lemma_run_len(s, Cls::Blank);
    lemma_run_len(s, Cls::Name);
    lemma_run_len(s, Cls::Lit);
    if opn(s) is Some {
        if s.len() >= 3 && s[0] == '<' && s[1] == '<' && s[2] == '-' {
            assert(s.take(3) =~= seq!['<', '<', '-']);
        } else if s.len() >= 2 && op2(s[0], s[1]) is Some {
            assert(s.take(2) =~= seq![s[0], s[1]]);
            assert(tstr(op2(s[0], s[1])->0) =~= seq![s[0], s[1]]);
        } else {
            assert(s.take(1) =~= seq![s[0]]);
            assert(tstr(op1(s[0])->0) =~= seq![s[0]]);
        }
    }
}
/// The concatenated text of tokens.
pub open spec fn text_of(s: Seq<Token>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { tstr(s[0]) + text_of(s.drop_first()) }
}
/// The canonical tokens of a text spell exactly that text, and are at most as many as its characters.
pub proof fn lemma_lexall(s: Seq<char>)
    ensures
        text_of(lexall(s)) == s,
        lexall(s).len() <= s.len(),
        s.len() > 0 ==> lexall(s).len() > 0,
    decreases s.len(),
{
    let l = lexall(s);
    if s.len() == 0 {
    } else if s[0] == '\\' {
        if s.len() == 1 {
            assert(l.drop_first() =~= Seq::empty());
            assert(text_of(l.drop_first()) =~= Seq::empty());
            assert(text_of(l) =~= s);
        } else {
            let r = lexall(s.skip(2));
            lemma_lexall(s.skip(2));
            if s[1] != '\\' { lemma_tok1(seq![s[1]]); }
            assert(tstr(single(s[1])) =~= seq![s[1]]);
            let l1 = l.drop_first();
            assert(l1 =~= seq![single(s[1])] + r);
            assert(l1.drop_first() =~= r);
            assert(text_of(l1) == seq![s[1]] + s.skip(2));
            assert(text_of(l) =~= s);
        }
    } else {
        lemma_tok1(s);
        lemma_lexall(s.skip(tok1(s).1));
        assert(l.drop_first() =~= lexall(s.skip(tok1(s).1)));
        assert(text_of(l) =~= s);
    }
}

/// The source form of a partial token.
pub open spec fn ptext(t: TokenOrLiteral) -> Seq<char> {
    match t {
        TokenOrLiteral::Tok(t) => tstr(t),
        TokenOrLiteral::Escaped(None) => seq!['\\'],
        TokenOrLiteral::Escaped(Some(t)) => seq!['\\'] + tstr(t),
        TokenOrLiteral::Lit(c) => seq![c],
    }
}
pub open spec fn peeked_ok(t: TokenOrLiteral) -> bool {
    match t {
        TokenOrLiteral::Tok(t) => tstr(t).len() > 0,
        TokenOrLiteral::Escaped(Some(t)) => tstr(t).len() > 0,
        TokenOrLiteral::Escaped(None) => true,
        TokenOrLiteral::Lit(c) => is_lit(c),
    }
}
/// The tokens which start with the partial token `t` when `rest` follows it.
pub open spec fn lex_from(t: Option<TokenOrLiteral>, rest: Seq<char>) -> Seq<Token> {
    match t {
        None => lexall(rest),
        Some(TokenOrLiteral::Tok(t)) => seq![t] + lexall(rest),
        Some(TokenOrLiteral::Escaped(None)) => seq![Token::Backslash] + lexall(rest),
        Some(TokenOrLiteral::Escaped(Some(t))) => seq![Token::Backslash, t] + lexall(rest),
        Some(TokenOrLiteral::Lit(c)) => lexall(seq![c] + rest),
    }
}
impl<I: crate::vf::RawIterator<Item = char>> Lexer<I> {
    pub open spec fn wf(&self) -> bool {
        self.peeked matches Some(t) ==> peeked_ok(t)
    }
    /// All characters which were not yielded yet.
    pub open spec fn text(&self) -> Seq<char> {
        match self.peeked { Some(t) => ptext(t) + self.inner.rest(), None => self.inner.rest() }
    }
    /// All tokens which were not yielded yet.
    pub open spec fn remaining(&self) -> Seq<Token> { lex_from(self.peeked, self.inner.rest()) }
}

@fn lexer::Lexer::next::name_start_char
props C02
ensures r == name_start(c)

@fn lexer::Lexer::next::is_digit
props C02
ensures r == is_digit10(c)

@fn lexer::Lexer::next::name_char
props C02
ensures r == name_cont(c)

@fn lexer::Lexer::new
props C01 C02
ensures
  - r.wf()
  - r.peeked is None
  - r.inner.rest() == iter.raw_rest()

@fn lexer::Lexer::next_is
props C01 C02
ensures
  - final(self).peeked == old(self).peeked
  - r == (old(self).inner.rest().len() > 0 && old(self).inner.rest()[0] == c)
  - r ==> final(self).inner.rest() == old(self).inner.rest().drop_first()
  - !r ==> final(self).inner.rest() == old(self).inner.rest()

@fn lexer::Lexer::next_internal
props C01 C02
attr #[verifier::loop_isolation(true)]
attr #[verifier::rlimit(40)]
### Verus does not instantiate the type parameters of a measure at a recursive call with other type
### arguments, so the measure is asserted at the only recursive call (the anchor below) instead.
attr #[verifier::exec_allows_no_decreases_clause]
requires old(self).wf()
ensures
  - final(self).peeked is None
  - old(self).peeked is Some ==> r == old(self).peeked && final(self).inner.rest() == old(self).inner.rest()
  - r matches Some(t) ==> peeked_ok(t)
  - r is None <==> old(self).text().len() == 0
  [C01] r is None ==> final(self).inner.rest().len() == 0
  [C01 C02] r matches Some(t) ==> ptext(t) + final(self).inner.rest() == old(self).text()
  [C02] lex_from(r, final(self).inner.rest()) == old(self).remaining()
  - final(self).inner.rest().len() <= old(self).inner.rest().len()
  - old(self).peeked is None && r is Some ==> final(self).inner.rest().len() < old(self).inner.rest().len()
  - old(self).peeked is None && r is Some ==> (r->0 is Lit <==> is_lit(old(self).text()[0]))
@loop 1
invariant
  - self.peeked is None
  - buf@ + self.inner.rest() == r0
  - buf@.len() > 0
  - buf@.len() <= r0.len()
  - forall|i: int| 0 <= i < buf@.len() ==> is_blank(#[trigger] r0[i])
  - is_blank(r0[0])
ensures self.inner.rest().len() > 0 ==> !is_blank(self.inner.rest()[0])
decreases self.inner.rest().len()
@proof start
let ghost r0 = self.inner.rest();
proof {
    if r0.len() > 0 {
        assert(seq![r0[0]] + r0.drop_first() =~= r0);
        if r0[0] != '\\' { lemma_tok1(r0); }
        else if r0.len() >= 2 {
            assert(r0.drop_first().drop_first() =~= r0.skip(2));
            assert(seq!['\\'] + seq![r0[1]] + r0.skip(2) =~= r0);
        }
        else {
            assert(r0 =~= seq![r0[0]]);
            assert(seq!['\\'] + r0.drop_first() =~= seq!['\\']);
            assert(seq![Token::Backslash] + lexall(r0.drop_first()) =~= seq![Token::Backslash]);
        }
    }
}
@proof before-call once
proof {
    ### well-foundedness of the recursion: this lexer holds strictly less text
    assert(1 < old(self).text().len());
}
@proof after:loop1
proof {
    let n = buf@.len() as int;
    assert(buf@ =~= r0.take(n));
    assert(self.inner.rest() =~= r0.skip(n));
    if n < r0.len() { assert(r0[n] == self.inner.rest()[0]); }
    lemma_run_is(r0, Cls::Blank, n);
}
@proof [C02] end
proof {
    let t = __vx_out->0->Tok_0;
    assert(tok1(r0).0 == t);
    assert(self.inner.rest() =~= r0.skip(tok1(r0).1));
    assert(lex_from(__vx_out, self.inner.rest()) =~= seq![tok1(r0).0] + lexall(r0.skip(tok1(r0).1)));
}
@proof [C01 C02] end
proof {
    let t = __vx_out->0->Tok_0;
    assert(tstr(t) + self.inner.rest() =~= r0);
}

@fn lexer::Lexer::next
props C01 C02
attr #[verifier::rlimit(60)]
attr #[verifier::exec_allows_no_decreases_clause]
requires old(self).wf()
ensures
  - final(self).wf()
  - r is None <==> old(self).text().len() == 0
  - r is None ==> final(self).text().len() == 0
  - r matches Some(t) ==> tstr(t).len() > 0
  [C01] r matches Some(t) ==> tstr(t) + final(self).text() == old(self).text()
  [C02] r matches Some(t) ==> old(self).remaining() == seq![t] + final(self).remaining()
  [C01] old(self).text().len() == 1 ==> (r matches Some(t) ==> tstr(t) == old(self).text())
  [C02] old(self).peeked is None && old(self).text().len() == 1 ==> r == Some(single(old(self).text()[0]))
@loop 1
invariant
  - self.peeked is None
  - word@.len() > 0
  - word@[0] == c
  - is_name == name_start(c)
  - is_lit(c)
  - word@ + self.inner.rest() == old(self).text()
  - forall|i: int| 0 <= i < word@.len() ==> is_lit(#[trigger] word@[i])
  [C02] is_name ==> forall|i: int| 0 <= i < word@.len() ==> name_cont(#[trigger] word@[i])
ensures
  - self.wf()
  [C01 C02] word@ + self.text() == old(self).text()
  [C02] word@ == old(self).text().take(word@.len() as int)
  [C02] self.remaining() == lexall(old(self).text().skip(word@.len() as int))
  [C02] word@.len() == word_len(old(self).text())
decreases self.inner.rest().len()
@proof start
let ghost x0 = self.text();
proof { lemma_singles(x0); }
@proof [C02] before-call return
proof {
    assert(word@ =~= x0.take(word@.len() as int));
    assert(self.text() =~= x0.skip(word@.len() as int));
    lemma_run_is(x0, Cls::Name, word@.len() as int);
    lemma_word(x0);
    assert(old(self).remaining() == lexall(x0));
    assert(old(self).remaining() == seq![Token::Name(word)] + self.remaining());
}
@proof [C02] before-call break#1
proof {
    let n = word@.len() as int;
    assert(word@ =~= x0.take(n));
    assert(self.text() =~= x0.skip(n));
    assert(x0[n] == self.text()[0]);
    lemma_run_is(x0, if is_name { Cls::Name } else { Cls::Lit }, n);
}
@proof [C02] before-call break#2
proof {
    let n = word@.len() as int;
    assert(word@ =~= x0);
    assert(x0.take(n) =~= x0);
    assert(x0.skip(n) =~= Seq::empty());
    lemma_run_is(x0, if is_name { Cls::Name } else { Cls::Lit }, n);
}
@proof [C02] after:loop1
proof {
    lemma_word(x0);
    assert(old(self).remaining() == lexall(x0));
    assert(word_tok(x0[0], word@) == if is_name { Token::Name(word) } else { Token::Literal(word) });
    assert(x0.take(word_len(x0)) == word@);
    assert(self.remaining() == lexall(x0.skip(word_len(x0))));
    assert(seq![word_tok(x0[0], word@)] + self.remaining() == lexall(x0));
    assert(old(self).remaining() == seq![word_tok(x0[0], word@)] + self.remaining());
}
@proof [C01] end
proof {
    if x0.len() == 1 && __vx_out is Some {
        assert(tstr(__vx_out->0) =~= x0);
    }
}
@proof [C02] end
proof {
    if __vx_out is Some {
        let t = __vx_out->0;
        if x0[0] != '\\' { lemma_tok1(x0); }
        if t is Backslash {
            assert(seq![Token::Backslash] + lexall(self.inner.rest()) =~= seq![Token::Backslash] + self.remaining()
                || self.peeked is Some);
            if self.peeked is Some {
                let u = self.peeked->0->Tok_0;
                assert(seq![Token::Backslash, u] + lexall(self.inner.rest())
                    =~= seq![Token::Backslash] + (seq![u] + lexall(self.inner.rest())));
            }
        }
        assert(old(self).remaining() =~= seq![t] + self.remaining());
    }
    if x0.len() == 1 && __vx_out is Some { assert(old(self).remaining()[0] == __vx_out->0); }
}

@fn lexer::Lexer::size_hint
props C25
ensures [C25] hint_ok(r, self.remaining().len())
@proof [C25] start
proof {
    lemma_lexall(self.inner.rest());
    if let Some(TokenOrLiteral::Lit(c)) = self.peeked {
        lemma_lexall(seq![c] + self.inner.rest());
    }
}

@mod lexer
pub proof fn lemma_word(s: Seq<char>)
    requires s.len() > 0, is_lit(s[0]),
    ensures
        tok1(s) == (word_tok(s[0], s.take(word_len(s))), word_len(s)),
        lexall(s) == seq![word_tok(s[0], s.take(word_len(s)))] + lexall(s.skip(word_len(s))),
{
    lemma_tok1(s);
    assert(op1(s[0]) is None);
    if s.len() >= 2 { assert(op2(s[0], s[1]) is None); }
    assert(opn(s) is None);
}
pub proof fn lemma_singles(s: Seq<char>)
    ensures s.len() == 1 ==> lexall(s).len() > 0 && lexall(s)[0] == single(s[0]),
{
    if s.len() == 1 {
        assert(s =~= seq![s[0]]);
        if s[0] != '\\' { lemma_tok1(s); }
    }
}
