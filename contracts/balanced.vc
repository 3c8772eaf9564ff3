@mod parse::iter
/// State of a balanced sub-stream.
pub struct BSt {
    pub esc: Option<(Token, SourcePos)>,
    pub stack: Seq<(Token, SourcePos)>,
    /// The parenthesis which comes next belongs to a `$(`.
    pub sub: bool,
    pub skip: bool,
    pub done: bool,
    pub pos: SourcePos,
    pub st: St,
}
/// The opening token whose closing token is pending.
pub open spec fn opener_of(t: Token) -> Token {
    match t {
        Token::ParenClose => Token::ParenOpen,
        Token::CurlyClose => Token::CurlyOpen,
        t => t,
    }
}
pub open spec fn bal_top(b: BSt) -> Option<Token> {
    if b.stack.len() == 0 { None } else { Some(b.stack.last().0) }
}
/// What an ordinary token opens (inside of `top`, the next token being `nxt`).
pub open spec fn bal_push(b: BSt, t: Token, a: St) -> Seq<(Token, SourcePos)> {
    match t {
        Token::Backtick | Token::DoubleQuote => b.stack.push((t, b.st.pos)),
        Token::SingleQuote => if bal_top(b) == Some(Token::DoubleQuote) { b.stack } else { b.stack.push((t, b.st.pos)) },
        // a parenthesis is inert directly within double quotes or ${ }
        Token::ParenOpen => if !b.sub && (bal_top(b) == Some(Token::DoubleQuote) || bal_top(b) == Some(Token::CurlyClose)) { b.stack }
            else { b.stack.push((Token::ParenClose, b.st.pos)) },
        Token::Dollar => if head(a) == Some(Token::CurlyOpen) { b.stack.push((Token::CurlyClose, a.pos)) } else { b.stack },
        _ => b.stack,
    }
}
pub open spec fn bal_step(b: BSt) -> (Option<Result<Token, UnmatchedError>>, BSt) {
    let h = head(b.st);
    let a = after(b.st);
    let e = b.stack.len() == 0;
    if b.esc is Some {
        // the token after a backslash is inert
        (Some(Ok((b.esc->0).0)), BSt { esc: None, pos: (b.esc->0).1, ..b })
    } else if b.done {
        (None, b)
    } else if bal_top(b) == h {
        // the pending closing token, or the end of a balanced stream
        let stack = if e { b.stack } else { b.stack.drop_last() };
        let last = stack.len() == 0;
        (
            if b.skip && last { None } else { match h { Some(t) => Some(Ok(t)), None => None } },
            BSt { stack, done: last, pos: a.pos, st: a, ..b },
        )
    } else if bal_top(b) == Some(Token::SingleQuote) {
        // everything between single quotes is inert
        (
            match h { Some(t) => Some(Ok(t)), None => Some(Err(UnmatchedError(Token::SingleQuote, b.stack.last().1))) },
            BSt { st: a, pos: a.pos, ..b },
        )
    } else {
        match h {
            None => (
                Some(Err(UnmatchedError(opener_of(b.stack.last().0), b.stack.last().1))),
                BSt { stack: b.stack.drop_last(), pos: a.pos, st: a, ..b },
            ),
            Some(Token::Backslash) => (
                Some(Ok(Token::Backslash)),
                BSt {
                    esc: match head(a) { Some(t) => Some((t, after(a).pos)), None => None },
                    st: after(a),
                    pos: a.pos,
                    done: e,
                    ..b
                },
            ),
            Some(t) => {
                let stack = bal_push(b, t, a);
                (
                    Some(Ok(t)),
                    BSt {
                        stack,
                        sub: if t is Dollar { b.sub || head(a) == Some(Token::ParenOpen) } else { b.sub && !(t is ParenOpen) },
                        done: stack.len() == 0 && !(t is Dollar && head(a) == Some(Token::ParenOpen)),
                        st: a,
                        pos: a.pos,
                        ..b
                    },
                )
            }
        }
    }
}
pub open spec fn bal_measure(b: BSt) -> nat {
    2 * ntoks(b.st.items) + b.stack.len() + (if b.esc is Some { 1nat } else { 0nat })
}
pub proof fn lemma_head_dec(s: St)
    ensures
        head(s) is Some ==> ntoks(after(s).items) + 1 == ntoks(s.items),
        head(s) is None ==> after(s) == s,
        s.wf() ==> after(s).wf(),
{
    if head(s) is Some {
        lemma_toks_norm(s.items.drop_first(), adv(s.pos, head(s)->0));
    }
}
pub proof fn lemma_bal_step(b: BSt)
    ensures
        ({
            let (r, b2) = bal_step(b);
            &&& (r matches Some(Ok(_)) ==> bal_measure(b2) < bal_measure(b))
            &&& bal_measure(b2) <= bal_measure(b)
            &&& (r is None ==> b2.done && b2.esc is None)
            &&& (b.st.wf() ==> b2.st.wf())
            &&& b2.skip == b.skip
            &&& ntoks(b2.st.items) <= ntoks(b.st.items)
        }),
{
    lemma_head_dec(b.st);
    lemma_head_dec(after(b.st));
}
pub ghost struct BRun {
    pub toks: Seq<(Token, SourcePos)>,
    pub err: Option<UnmatchedError>,
    pub end: BSt,
}
/// Everything a balanced sub-stream yields, up to its end or first error.
pub open spec fn bal_run(b: BSt) -> BRun
    decreases bal_measure(b) via bal_run_dec
{
    let (r, b2) = bal_step(b);
    match r {
        None => BRun { toks: Seq::empty(), err: None, end: b2 },
        Some(Err(e)) => BRun { toks: Seq::empty(), err: Some(e), end: b2 },
        Some(Ok(t)) => {
            let n = bal_run(b2);
            BRun { toks: seq![(t, b.pos)] + n.toks, err: n.err, end: n.end }
        }
    }
}
#[via_fn]
proof fn bal_run_dec(b: BSt) { lemma_bal_step(b); }
pub open spec fn bal_init(s: St, delim: Option<(Token, SourcePos)>) -> BSt {
    BSt {
        esc: None,
        stack: match delim { Some(d) => seq![d], None => Seq::empty() },
        sub: false,
        skip: delim is Some,
        done: false,
        pos: s.pos,
        st: s,
    }
}
/// The tokens a backslash is removed in front of (between backticks).
pub open spec fn bt_special(t: Token) -> bool {
    t is Dollar || t is Backtick || t is Backslash
}
/// Removes exactly the backslashes in front of `\`, `$` and backticks.
pub open spec fn strip(s: Seq<(Token, SourcePos)>) -> Seq<(Token, SourcePos)>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s[0].0 is Backslash && s.len() >= 2 && bt_special(s[1].0) {
        seq![s[1]] + strip(s.skip(2))
    } else if s[0].0 is Backslash && s.len() >= 2 {
        seq![s[0], s[1]] + strip(s.skip(2))
    } else {
        seq![s[0]] + strip(s.skip(1))
    }
}
/// The tokens alone.
pub open spec fn fst(s: Seq<(Token, SourcePos)>) -> Seq<Token> {
    Seq::new(s.len(), |i: int| s[i].0)
}
/// Tokens with their positions, as they are put back into a stream.
pub open spec fn inter(s: Seq<(Token, SourcePos)>) -> Seq<TokenOrPos>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { inter(s.drop_last()).push(TokenOrPos::Pos(s.last().1)).push(TokenOrPos::Tok(s.last().0)) }
}
pub proof fn lemma_inter_add(a: Seq<(Token, SourcePos)>, b: Seq<(Token, SourcePos)>)
    ensures inter(a + b) == inter(a) + inter(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(inter(a) + inter(b) =~= inter(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_inter_add(a, b.drop_last());
        assert(inter(a + b) =~= inter(a) + inter(b));
    }
}
pub proof fn lemma_inter_one(t: Token, p: SourcePos, r: Seq<(Token, SourcePos)>)
    ensures
        inter(seq![(t, p)] + r) == seq![TokenOrPos::Pos(p), TokenOrPos::Tok(t)] + inter(r),
        inter(seq![(t, p)]) == seq![TokenOrPos::Pos(p), TokenOrPos::Tok(t)],
{
    lemma_inter_add(seq![(t, p)], r);
    assert(seq![(t, p)].drop_last() =~= Seq::empty());
    assert(inter(seq![(t, p)].drop_last()) =~= Seq::empty());
    assert(inter(seq![(t, p)]) =~= seq![TokenOrPos::Pos(p), TokenOrPos::Tok(t)]);
}
pub proof fn lemma_inter_toks(s: Seq<(Token, SourcePos)>)
    ensures toks(inter(s)) == fst(s), ntoks(inter(s)) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_inter_toks(s.drop_last());
        let tl = seq![TokenOrPos::Pos(s.last().1), TokenOrPos::Tok(s.last().0)];
        assert(inter(s) =~= inter(s.drop_last()) + tl);
        lemma_toks_add(inter(s.drop_last()), tl);
        assert(tl.drop_first() =~= seq![TokenOrPos::Tok(s.last().0)]);
        assert(tl.drop_first().drop_first() =~= Seq::empty());
        assert(toks(tl.drop_first().drop_first()) =~= Seq::empty());
        assert(toks(tl.drop_first()) =~= seq![s.last().0]);
        assert(toks(tl) =~= seq![s.last().0]);
        assert(fst(s) =~= fst(s.drop_last()) + seq![s.last().0]);
    } else {
        assert(fst(s) =~= Seq::empty());
    }
    lemma_ntoks(inter(s));
}
/// A stream `s` with tokens put back in front of it.
pub open spec fn put_back(t: Seq<(Token, SourcePos)>, p: SourcePos, s: St) -> St {
    norm(inter(t) + seq![TokenOrPos::Pos(s.pos)] + s.items, p)
}
pub proof fn lemma_put_back(t: Seq<(Token, SourcePos)>, p: SourcePos, s: St)
    ensures put_back(t, p, s).wf(), ntoks(put_back(t, p, s).items) == t.len() + ntoks(s.items),
{
    let q = seq![TokenOrPos::Pos(s.pos)];
    lemma_toks_norm(inter(t) + q + s.items, p);
    lemma_toks_add(inter(t) + q, s.items);
    lemma_toks_add(inter(t), q);
    lemma_inter_toks(t);
    assert(q.drop_first() =~= Seq::empty());
    assert(toks(q.drop_first()) =~= Seq::empty());
    assert(toks(q) =~= Seq::empty());
    lemma_ntoks(inter(t) + q + s.items);
    lemma_ntoks(s.items);
}
/// A stream of its own.
pub open spec fn own(t: Seq<(Token, SourcePos)>, p: SourcePos) -> St {
    put_back(t, p, St { items: Seq::empty(), pos: p })
}
pub proof fn lemma_strip_len(s: Seq<(Token, SourcePos)>)
    ensures strip(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() == 0 {
    } else if s[0].0 is Backslash && s.len() >= 2 {
        lemma_strip_len(s.skip(2));
    } else {
        lemma_strip_len(s.skip(1));
    }
}
/// No token appears out of nowhere, and something is read when there is anything to read.
pub proof fn lemma_bal_run(b: BSt)
    ensures
        ({
            let n = bal_run(b);
            &&& n.toks.len() + ntoks(n.end.st.items) <= ntoks(b.st.items) + (if b.esc is Some { 1nat } else { 0nat })
            &&& (b.st.wf() ==> n.end.st.wf())
            &&& strip(n.toks).len() <= n.toks.len()
            &&& (n.err is None ==> n.end.done && n.end.esc is None && bal_run(n.end) == (BRun { toks: Seq::empty(), err: None, end: n.end }))
        }),
    decreases bal_measure(b),
{
    lemma_bal_step(b);
    let (r, b2) = bal_step(b);
    lemma_strip_len(bal_run(b).toks);
    lemma_head_dec(b.st);
    lemma_head_dec(after(b.st));
    if r matches Some(Ok(_)) {
        lemma_bal_run(b2);
    }
}
pub proof fn lemma_bal_run_some(s: St)
    ensures head(s) is Some ==> bal_run(bal_init(s, None)).toks.len() > 0
        && ntoks(bal_run(bal_init(s, None)).end.st.items) < ntoks(s.items),
{
    let b = bal_init(s, None);
    lemma_bal_run(b);
    lemma_bal_run(bal_step(b).1);
    lemma_bal_step(b);
}
pub proof fn lemma_rem_step(b: BSt)
    ensures
        ({
            let (r1, b2) = bal_step(b);
            let (r2, b3) = bal_step(b2);
            let n = bal_run(b);
            match r1 {
                None => n.toks.len() == 0 && strip(n.toks).len() == 0 && n.err is None && n.end == b2
                    && bal_run(b2) == (BRun { toks: Seq::empty(), err: None, end: b2 }),
                Some(Err(e)) => n.err == Some(e) && n.toks.len() == 0 && strip(n.toks).len() == 0,
                Some(Ok(Token::Backslash)) => match r2 {
                    None => n.toks == seq![(Token::Backslash, b.pos)] && strip(n.toks) == n.toks && n.err is None && n.end == b3
                        && bal_run(b3) == (BRun { toks: Seq::empty(), err: None, end: b3 }),
                    Some(Err(e)) => n.err == Some(e) && strip(n.toks) == seq![(Token::Backslash, b.pos)],
                    Some(Ok(t2)) => {
                        let n3 = bal_run(b3);
                        &&& n.err == n3.err && n.end == n3.end
                        &&& strip(n.toks) == (if bt_special(t2) { seq![(t2, b2.pos)] }
                            else { seq![(Token::Backslash, b.pos), (t2, b2.pos)] }) + strip(n3.toks)
                    }
                },
                Some(Ok(t)) => {
                    let n2 = bal_run(b2);
                    &&& n.err == n2.err && n.end == n2.end
                    &&& strip(n.toks) == seq![(t, b.pos)] + strip(n2.toks)
                }
            }
        }),
{
    let (r1, b2) = bal_step(b);
    let (r2, b3) = bal_step(b2);
    let n = bal_run(b);
    lemma_bal_step(b);
    lemma_bal_step(b2);
    let n2 = bal_run(b2);
    let n3 = bal_run(b3);
    match r1 {
        Some(Ok(t)) => {
            assert(n.toks == seq![(t, b.pos)] + n2.toks);
            assert(n.toks.skip(1) =~= n2.toks);
            if t is Backslash {
                match r2 {
                    None => {
                        assert(n.toks =~= seq![(t, b.pos)]);
                        assert(strip(n.toks.skip(1)) =~= Seq::empty());
                        assert(strip(n.toks) =~= n.toks);
                    }
                    Some(Err(_)) => {
                        assert(n.toks =~= seq![(t, b.pos)]);
                        assert(strip(n.toks.skip(1)) =~= Seq::empty());
                        assert(strip(n.toks) =~= n.toks);
                    }
                    Some(Ok(t2)) => {
                        assert(n2.toks == seq![(t2, b2.pos)] + n3.toks);
                        assert(n.toks.skip(2) =~= n3.toks);
                        assert(n.toks[1] == (t2, b2.pos));
                        assert(strip(n.toks) =~= (if bt_special(t2) { seq![(t2, b2.pos)] }
                            else { seq![(Token::Backslash, b.pos), (t2, b2.pos)] }) + strip(n3.toks));
                    }
                }
            } else {
                assert(strip(n.toks) =~= seq![(t, b.pos)] + strip(n2.toks));
            }
        }
        _ => {}
    }
}

@impl parse::iter::Balanced
    pub open spec fn bst(&self) -> BSt {
        BSt { esc: self.escaped, stack: self.stack@, sub: self.at_paren_subst, skip: self.skip_last_delimeter, done: self.done, pos: self.pos, st: self.iter.st() }
    }

@fn parse::iter::Balanced::new
props C05
ensures
  - r.bst() == bal_init(iter.st(), delim)
  - r.iter == iter
@proof end
proof { assert(__vx_out.bst().stack =~= bal_init(iter.st(), delim).stack); }

@fn parse::iter::Balanced::pos
props C03
ensures r == self.bst().pos

@fn parse::iter::Balanced::next
props C03 C05
requires old(self).iter.st().wf()
ensures
  - (r, final(self).bst()) == bal_step(old(self).bst())
  - final(self).iter.st().wf()
  - final(self).iter.fin() == old(self).iter.fin()

@fn parse::iter::BacktickBackslashRemover::new
props C06
ensures
  - r.iter == iter
  - r.peeked is None
  - r.done == false

@fn parse::iter::TokenIterator::balanced
props C05
requires (*old(self)).st().wf()
ensures
  - r.bst() == bal_init((*old(self)).st(), None)
  - r.iter.fin() == (*final(self)).st()

@fn parse::iter::TokenIterator::single_quoted
props C05
requires (*old(self)).st().wf()
ensures
  - r.bst() == bal_init((*old(self)).st(), Some((Token::SingleQuote, pos)))
  - r.iter.fin() == (*final(self)).st()

@fn parse::iter::TokenIterator::double_quoted
props C05
requires (*old(self)).st().wf()
ensures
  - r.bst() == bal_init((*old(self)).st(), Some((Token::DoubleQuote, pos)))
  - r.iter.fin() == (*final(self)).st()

@fn parse::iter::TokenIterator::backticked
props C05 C06
requires (*old(self)).st().wf()
ensures
  - r.bst() == bal_init((*old(self)).st(), Some((Token::Backtick, pos)))
  - r.iter.fin() == (*final(self)).st()

@fn parse::iter::TokenIterator::backticked_remove_backslashes
props C06
requires (*old(self)).st().wf()
ensures
  - r.iter.bst() == bal_init((*old(self)).st(), Some((Token::Backtick, pos)))
  - r.peeked is None
  - r.done == false
  - r.iter.iter.fin() == (*final(self)).st()

@mod parse::iter
/// What the backslash remover still yields: its tokens, and the error it then reports.
pub open spec fn rem_rest(b: BSt, peeked: Option<Result<Token, UnmatchedError>>, done: bool) -> (Seq<Token>, Option<UnmatchedError>) {
    let n = bal_run(b);
    let s = fst(strip(n.toks));
    match peeked {
        Some(Ok(t)) => (seq![t] + s, n.err),
        Some(Err(e)) => (Seq::empty(), Some(e)),
        None => if done { (Seq::empty(), None) } else { (s, n.err) },
    }
}
pub proof fn lemma_map_fst(a: Seq<(Token, SourcePos)>, b: Seq<(Token, SourcePos)>)
    ensures fst(a + b) == fst(a) + fst(b),
{
    assert(fst(a + b) =~= fst(a) + fst(b));
}
impl<I: PositionIterator> BacktickBackslashRemover<I> {
    pub open spec fn rest(&self) -> (Seq<Token>, Option<UnmatchedError>) {
        rem_rest(self.iter.bst(), self.peeked, self.done)
    }
}

@fn parse::iter::BacktickBackslashRemover::next
props C06
requires old(self).iter.iter.st().wf()
requires old(self).done ==> old(self).peeked is None && bal_run(old(self).iter.bst()) == (BRun { toks: Seq::empty(), err: None, end: old(self).iter.bst() })
ensures
  - final(self).iter.iter.st().wf()
  - final(self).iter.iter.fin() == old(self).iter.iter.fin()
  - final(self).done ==> final(self).peeked is None
  - old(self).rest().0.len() > 0 ==> r == Some(Ok::<Token, UnmatchedError>(old(self).rest().0[0])) && final(self).rest() == (old(self).rest().0.drop_first(), old(self).rest().1)
  - old(self).rest().0.len() == 0 && old(self).rest().1 is Some ==> r == Some(Err::<Token, UnmatchedError>(old(self).rest().1->0))
  - old(self).rest().0.len() == 0 && old(self).rest().1 is None ==> r is None && final(self).rest() == old(self).rest()
  - old(self).rest().1 is None ==> bal_run(final(self).iter.bst()).end == bal_run(old(self).iter.bst()).end
  - r is None ==> bal_run(final(self).iter.bst()) == (BRun { toks: Seq::empty(), err: None, end: final(self).iter.bst() })
  - final(self).done ==> bal_run(final(self).iter.bst()) == (BRun { toks: Seq::empty(), err: None, end: final(self).iter.bst() })
@proof start
proof {
    let b = self.iter.bst();
    lemma_rem_step(b);
    lemma_bal_step(b);
    let (r1, b2) = bal_step(b);
    let (r2, b3) = bal_step(b2);
    lemma_bal_step(b2);
    match (r1, r2) {
        (Some(Ok(Token::Backslash)), Some(Ok(t2))) => {
            if bt_special(t2) { lemma_map_fst(seq![(t2, b2.pos)], strip(bal_run(b3).toks)); }
            else { lemma_map_fst(seq![(Token::Backslash, b.pos), (t2, b2.pos)], strip(bal_run(b3).toks)); }
        }
        (Some(Ok(t)), _) => { lemma_map_fst(seq![(t, b.pos)], strip(bal_run(b2).toks)); }
        _ => {}
    }
}
@proof end
proof {
    let o = old(self).rest().0;
    if o.len() > 0 { assert(final(self).rest().0 =~= o.drop_first()); }
}

@fn parse::iter::BacktickBackslashRemover::create_token_iter
props C03 C06
requires iter.iter.st().wf()
ensures
  - r is Err <==> bal_run(iter.bst()).err is Some
  - r matches Err(e) ==> bal_run(iter.bst()).err == Some(e)
  - r matches Ok(it) ==> it.st0().wf()
  - r matches Ok(it) ==> it.st0() == put_back(strip(bal_run(iter.bst()).toks), iter.bst().pos, St { items: Seq::empty(), pos: bal_run(iter.bst()).end.pos })
  - exists|j: I| #[trigger] has_resolved(j) && j.fin() == iter.iter.fin() && j.st() == bal_run(iter.bst()).end.st
@proof start
let ghost b0 = iter.bst();
let ghost fin0 = iter.iter.fin();
@loop 1
invariant
  - iter.iter.st().wf()
  - iter.iter.fin() == fin0
  - inter(strip(bal_run(b0).toks)) == buf@ + inter(strip(bal_run(iter.bst()).toks))
  - bal_run(b0).err == bal_run(iter.bst()).err
  - bal_run(b0).end == bal_run(iter.bst()).end
ensures
  - bal_run(iter.bst()) == (BRun { toks: Seq::empty(), err: None, end: iter.bst() })
decreases bal_measure(iter.bst()), (if iter.bst().done && iter.bst().esc is None { 0nat } else { 1nat })
@proof loop1.start
let ghost m1 = buf@;
let ghost b1 = iter.bst();
proof {
    lemma_rem_step(b1); lemma_bal_step(b1); lemma_bal_step(bal_step(b1).1);
}
proof {
    let (r1, b2) = bal_step(b1);
    let (r2, b3) = bal_step(b2);
    match (r1, r2) {
        (Some(Ok(Token::Backslash)), Some(Ok(t2))) => {
            let r = strip(bal_run(b3).toks);
            lemma_inter_one(t2, b2.pos, r);
            lemma_inter_one(Token::Backslash, b1.pos, seq![(t2, b2.pos)] + r);
            assert(seq![(Token::Backslash, b1.pos), (t2, b2.pos)] + r =~= seq![(Token::Backslash, b1.pos)] + (seq![(t2, b2.pos)] + r));
        }
        (Some(Ok(Token::Backslash)), None) => {
            lemma_inter_one(Token::Backslash, b1.pos, Seq::empty());
            assert(strip(bal_run(b1).toks) =~= seq![(Token::Backslash, b1.pos)] + Seq::empty());
            assert(strip(bal_run(b3).toks) =~= Seq::empty());
        }
        (Some(Ok(t)), _) => { lemma_inter_one(t, b1.pos, strip(bal_run(b2).toks)); }
        _ => { assert(inter(strip(bal_run(b2).toks)) =~= inter(strip(bal_run(b1).toks))); }
    }
}
@proof loop1.end
proof {
    assert(buf@ + inter(strip(bal_run(iter.bst()).toks)) =~= m1 + inter(strip(bal_run(b1).toks)));
}
@proof before-call buffer_tokens_to_yield_first
let ghost endp = tok_iter.pos;
proof {
    assert(tok_iter.items() =~= Seq::empty());
    assert(strip(bal_run(iter.bst()).toks) =~= Seq::empty());
    assert(inter(strip(bal_run(iter.bst()).toks)) =~= Seq::empty());
    assert(buf@ =~= inter(strip(bal_run(b0).toks)));
    lemma_put_back(strip(bal_run(b0).toks), b0.pos, St { items: Seq::empty(), pos: endp });
}

@fn parse::iter::TokenIter::token_iter_from_backticked_with_removed_backslashes
props C03 C06
requires old(self).st0().wf()
ensures
  - ({
    let n = bal_run(bal_init(old(self).st0(), Some((Token::Backtick, pos))));
    &&& (r is Err <==> n.err is Some)
    &&& (r matches Err(e) ==> n.err == Some(e))
    &&& (r matches Ok(it) ==> it.st0().wf() && it.st0() == put_back(strip(n.toks), old(self).st0().pos, St { items: Seq::empty(), pos: n.end.pos }))
    &&& final(self).st0() == n.end.st
  })

@fn parse::iter::TokenIterWrapper::token_iter_from_backticked_with_removed_backslashes
props C03 C06
requires old(self).st0().wf()
ensures
  - ({
    let n = bal_run(bal_init(old(self).st0(), Some((Token::Backtick, pos))));
    &&& (r is Err <==> n.err is Some)
    &&& (r matches Err(e) ==> n.err == Some(e))
    &&& (r matches Ok(it) ==> it.st0().wf() && it.st0() == put_back(strip(n.toks), old(self).st0().pos, St { items: Seq::empty(), pos: n.end.pos }))
    &&& final(self).st0() == n.end.st
  })

@mod parse::iter
impl<I> crate::vf::VxIntoIter for Balanced<I> {
    type It = Balanced<I>;
    open spec fn into_post(self, r: Balanced<I>) -> bool { r == self }
    fn vx_into_iter(self) -> (r: Balanced<I>) { self }
}
impl<I> crate::vf::VxIntoIter for BacktickBackslashRemover<I> {
    type It = BacktickBackslashRemover<I>;
    open spec fn into_post(self, r: BacktickBackslashRemover<I>) -> bool { r == self }
    fn vx_into_iter(self) -> (r: BacktickBackslashRemover<I>) { self }
}
